"""Normal forms for value-graph nodes and the partitioned abstract domain they are compared in.

A real-valued node is reduced to a quotient of multivariate polynomials over Q whose
indeterminates are input cells and applications of sqrt/sin/cos/... (each with a normalised
argument).  Gating conditions are normalised to the sign of such a polynomial; the domain keeps a
partition of the input space by those signs (plus the values of individual flag bits)."""
import itertools
from fractions import Fraction
import poly as P
from poly import TooBig
from vg import N, T, F, UNDEF, BOT, show
import vg

NEG, ZER, POS = 1, 2, 4
ANY = 7


def flip(m):
    return (1 if m & 4 else 0) | (m & 2) | (4 if m & 1 else 0)


class SplitSign(Exception):
    def __init__(self, p, parts):
        self.p = p          # canonical polynomial
        self.parts = parts  # list of masks


class SplitInt(Exception):
    def __init__(self, name, bit=None, values=None):
        self.name = name
        self.bit = bit
        self.values = values


class SplitBool(Exception):
    def __init__(self, key):
        self.key = key


class Unknown(Exception):
    pass


class Bad:
    """value of an operation without a real result (division by an exact zero, undefined cell)"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<%s>' % self.why


class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'mask', 'red')


class RF:
    __slots__ = ('n', 'd')   # n: poly; d: dict key->(poly, exp)

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Space:
    """atom table shared by everything normalised together"""

    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.leaves = set()
        self.fns = {}      # name -> list of (args RFs, atom id)
        self.reducible = set()
        self.positive_names = {}
        self.sos = {}      # key of a polynomial recorded as k * (sum of squares of the listed ones)
        self.prods = {}    # key of a factor -> (product, the other factors) whose sign was asked for
        self.pi = self.var_atom('pi', POS)
        self.huge = []     # atoms larger than every quantity computed from the inputs, the largest first

    def new(self, name, kind, args=None, mask=ANY, red=None):
        a = Atom()
        a.id = len(self.atoms)
        a.name = name
        a.kind = kind
        a.args = args
        a.mask = mask
        a.red = red
        self.atoms.append(a)
        if red is not None:
            self.reducible.add(a.id)
        return a.id

    def var_atom(self, name, mask=ANY):
        i = self.byname.get(name)
        if i is None:
            i = self.new(name, 'var', mask=mask)
            self.byname[name] = i
        return i

    # ---- polynomial multiplication with reduction
    def mul(self, a, b):
        return self.reduce(P.mul(a, b))

    def reduce(self, p):
        if not self.reducible:
            return p
        red = self.reducible
        while True:
            todo = None
            for m in p:
                for x, e in m:
                    if e >= 2 and x in red:
                        todo = x
                        break
                if todo is not None:
                    break
            if todo is None:
                return p
            R = self.atoms[todo].red
            out = {}
            acc = {}
            for m, c in p.items():
                e = 0
                for x, k in m:
                    if x == todo:
                        e = k
                if e < 2:
                    acc[m] = acc.get(m, 0) + c
                    if acc[m] == 0:
                        del acc[m]
                else:
                    rest = tuple((x, k) for x, k in m if x != todo)
                    out.setdefault(e, {})
                    mm = P.mmul(rest, ((todo, 1),)) if e % 2 else rest
                    out[e][mm] = out[e].get(mm, 0) + c
            p = acc
            for e, q in out.items():
                p = P.add(p, P.mul(q, P.powi(R, e // 2)))

    # ---- printing
    def pstr(self, p, maxterms=8):
        if not p:
            return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0]))[:maxterms]:
            s = '*'.join(self.atoms[a].name + ('^%d' % e if e > 1 else '') for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        r = ' + '.join(out).replace('+ -', '- ')
        if len(p) > maxterms:
            r += ' + … (%d terms)' % len(p)
        return r

    def rfstr(self, r):
        if isinstance(r, Bad):
            return repr(r)
        if not isinstance(r, RF):
            return str(r)
        s = self.pstr(r.n)
        if r.d:
            s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (self.pstr(p), '^%d' % e if e > 1 else '') for p, e in r.d.values()))
        return s


class Ctx:
    """one cell of the partition"""
    _n = 0

    def __init__(self, space):
        self.sp = space
        self.signs = {}      # key(poly) -> (poly, mask)
        self.bits = {}       # (name, bit) -> 0/1
        self.ints = {}       # name -> value
        self.bools = {}
        self.subst = {}      # atom id -> RF poly
        self.memo = {}
        self.rsubst = {}     # atom id -> RF, solved from an equation with a variable coefficient
        self.domains = {}    # int name -> number of significant bits
        self.cut = {}        # node id -> name of the unknown that stands for it
        self.depth = 0
        self.reseed = True

    def child(self):
        c = Ctx(self.sp)
        c.signs = dict(self.signs)
        c.bits = dict(self.bits)
        c.ints = dict(self.ints)
        c.bools = dict(self.bools)
        c.subst = dict(self.subst)
        c.memo = dict(self.memo)
        c.domains = self.domains
        c.rsubst = dict(self.rsubst)
        c.cut = self.cut
        c.depth = self.depth + 1
        c.reseed = self.reseed
        return c

    def describe(self):
        out = []
        for p, m in self.signs.values():
            out.append('%s %s 0' % (self.sp.pstr(p, 5), {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!=', 7: '?'}[m]))
        for (n, b), v in self.bits.items():
            out.append('%s.bit%d=%d' % (n, b, v))
        for n, v in self.ints.items():
            out.append('%s=%d' % (n, v))
        for k, v in self.bools.items():
            out.append('%s=%s' % (k, v))
        for a, r in self.subst.items():
            out.append('%s=%s' % (self.sp.atoms[a].name, self.sp.pstr(r, 4)))
        return out

    # ------------------------------------------------------------ sign domain
    def atom_mask(self, a):
        at = self.sp.atoms[a]
        m = at.mask
        f = self.signs.get(P.key(P.var(a)))
        if f:
            m &= f[1]
        return m

    def mono_mask(self, m):
        pos = POS
        r = POS
        for a, e in m:
            am = self.atom_mask(a)
            if e % 2 == 0:
                am = (am & ZER) | (POS if am & (NEG | POS) else 0)
            r = mulmask(r, am)
        return r

    def huge_parts(self, p):
        """coefficients of p in the unboundedly large atom, leading one first"""
        for h in self.sp.huge:
            d = {}
            for m, c in p.items():
                e = next((e for a, e in m if a == h), 0)
                d.setdefault(e, {})[tuple(x for x in m if x[0] != h)] = c
            if max(d) > 0:
                return [d[e] for e in sorted(d, reverse=True)]
        return None

    def sign(self, p, deep=True):
        """mask of possible signs of p in this cell"""
        if not p:
            return ZER
        if P.is_const(p):
            return POS if P.const_val(p) > 0 else NEG
        if self.sp.huge:
            hs = self.huge_parts(p)
            if hs:
                r = ANY
                for c in hs:
                    s = self.sign(c, deep)
                    if s != ZER:
                        return s if not s & ZER else ANY
                return ZER
        mc = P.mono_content(p)
        r = ANY
        if mc:
            mm = self.mono_mask(mc)
            rest = P.div_mono(p, mc)
            if P.is_const(rest):
                r = mm if P.const_val(rest) > 0 else flip(mm)
            else:
                r = mulmask(mm, self.sign(rest, deep))
            if r in (NEG, ZER, POS):
                return r
        q, k = P.canon_sign(p)
        f = self.signs.get(P.key(q))
        if f:
            r &= f[1] if k > 0 else flip(f[1])
            if r in (NEG, ZER, POS):
                return r
        if 1 < len(p) <= 200:
            r &= self.offset(p)
            if r in (NEG, ZER, POS, 0):
                return r
        so = self.find_sos(q)
        if so is not None:
            fm = ZER
            for c in so[1]:
                cm = self.sign(c, False) if c else ZER
                if not cm & ZER:
                    fm = POS
                    break
                if cm != ZER:
                    fm = POS | ZER
            r &= fm if k * so[0] > 0 else flip(fm)
            if r in (NEG, ZER, POS, 0):
                return r
        if len(p) in (2, 3):
            fs = univariate_factors(q)
            if fs:
                s = POS if k * fs[2] > 0 else NEG
                for f in fs[:2]:
                    s = mulmask(s, self.sign(f, deep))
                r &= s
                if r in (NEG, ZER, POS, 0):
                    return r
        if len(p) <= 400:
            s = 0
            for m, c in p.items():
                mm = self.mono_mask(m)
                if c < 0:
                    mm = flip(mm)
                s = addmask(s, mm) if s else mm
                if s == ANY:
                    break
            r &= s
        if r in (NEG, ZER, POS):
            return r
        if deep and len(p) <= 40:
            r &= self.sqrt_sign(p)
            if r in (NEG, ZER, POS):
                return r
            # positive semidefinite quadratic
            for sg in (1, -1):
                if len(p) <= 30:
                    so = P.sos_quadratic(p if sg > 0 else P.neg(p))
                    if so is not None:
                        fm = POS if so[1] > 0 else (POS | ZER)
                        if fm & ZER:
                            for c, fo in so[0]:
                                if not self.sign(fo, False) & ZER:
                                    fm = POS
                                    break
                        r &= fm if sg > 0 else flip(fm)
                        break
            if r in (NEG, ZER, POS):
                return r
            r &= self.combo(p)
            if r in (NEG, ZER, POS, 0):
                return r
        if deep and 3 < len(p) <= 120:
            # a factor of recorded sign
            ap = P.atoms(p)
            for f, m in self.signs.values():
                if m in (NEG, POS) and 1 < len(f) < len(p) and P.atoms(f) <= ap:
                    g = P.try_div(p, f)
                    if g is not None:
                        s = self.sign(g, deep)
                        r &= s if m == POS else flip(s)
                        break
        if deep and q is not None and r not in (NEG, ZER, POS):
            # a factor of a product of recorded sign
            for w, kk, others in self.sp.prods.get(P.key(q), {}).values():
                m = self.signs.get(P.key(w))
                if m is None or m[1] in (ANY, 0):
                    continue
                s = m[1] if kk * k > 0 else flip(m[1])
                for o in others:
                    s1 = self.sign(o, False)
                    if s1 not in (NEG, POS):
                        break
                    s = s if s1 == POS else flip(s)
                else:
                    r &= s
        return r

    def sqrt_sign(self, p):
        """p = a*s + b for one sqrt atom s"""
        cand = None
        for m in p:
            for a, e in m:
                if self.sp.atoms[a].kind == 'sqrt' and e == 1:
                    cand = a
                    break
            if cand is not None:
                break
        if cand is None:
            return ANY
        a = {}
        b = {}
        for m, c in p.items():
            if any(x == cand for x, _ in m):
                a[tuple((x, e) for x, e in m if x != cand)] = c
            else:
                b[m] = c
        if not b:
            return ANY
        sa = self.sign(a, False)
        sb = self.sign(b, False)
        if sa not in (NEG, POS) or sb not in (NEG, POS):
            # also allow weak signs on the same side
            return ANY
        if sa == sb:
            return sa
        R = self.sp.atoms[cand].red
        d = P.sub(self.sp.mul(self.sp.mul(a, a), R), self.sp.mul(b, b))   # (a s)^2 - b^2
        sd = self.sign(d, True)
        # sign(a s + b) = sign(a) * sign((a s)^2 - b^2)
        return sd if sa == POS else flip(sd)

    def canon_split(self, p):
        """the polynomial whose sign should be branched on to settle sign(p)"""
        if self.sp.huge:
            for c in self.huge_parts(p) or ():
                s = self.sign(c)
                if s not in (NEG, ZER, POS):
                    return self.canon_split(c)
        mc = P.mono_content(p)
        if mc:
            for a, e in mc:
                am = self.atom_mask(a)
                if am not in (NEG, ZER, POS):
                    if e % 2 == 0 and not (am & ZER):
                        continue
                    if e % 2 == 0:
                        return P.var(a), [am & ZER, am & ~ZER & ANY]
                    if self.sp.atoms[a].kind == 'sqrt':
                        return P.var(a), [am & ZER, am & POS]
                    return P.var(a), None
            rest = P.div_mono(p, mc)
            if self.sign(rest) not in (NEG, ZER, POS):
                return self.canon_split(rest)
        if len(p) in (2, 3):
            fs = univariate_factors(p)
            if fs:
                for f in fs[:2]:
                    m = self.sign(f)
                    if m not in (NEG, ZER, POS):
                        return P.canon_sign(f)[0], None
        # a*s + b
        cand = None
        for m in p:
            for a, e in m:
                if self.sp.atoms[a].kind == 'sqrt' and e == 1:
                    cand = a
        if cand is not None and len(p) <= 200:
            a = {}
            b = {}
            for m, c in p.items():
                if any(x == cand for x, _ in m):
                    a[tuple((x, e) for x, e in m if x != cand)] = c
                else:
                    b[m] = c
            if b:
                sa = self.sign(a, False)
                if sa in (NEG, POS):
                    sb = self.sign(b, False)
                    if sb not in (NEG, POS):
                        if P.is_const(a) or True:
                            q, k = P.canon_sign(b)
                            if len(q) <= 40:
                                return self.canon_split(b) if sb not in (ZER,) else (q, None)
                    elif sb != sa:
                        R = self.sp.atoms[cand].red
                        d = P.sub(self.sp.mul(self.sp.mul(a, a), R), self.sp.mul(b, b))
                        if d and self.sign(d) not in (NEG, ZER, POS):
                            return self.canon_split(d)
        return P.canon_sign(p)[0], None

    def offset(self, p):
        """sign of p from recorded facts that differ from a multiple of p by a constant"""
        r = ANY
        n = len(p) - (() in p)
        lead = next(m for m in p if m)
        for f, m in self.signs.values():
            if m in (ANY, 5) or lead not in f or len(f) - (() in f) != n:
                continue
            k = Fraction(p[lead]) / f[lead]
            if any(mo and f.get(mo, 0) * k != c for mo, c in p.items()):
                continue
            c = p.get((), 0) - k * f.get((), 0)
            m = m if k > 0 else flip(m)
            r &= m if not c else addmask(m, POS if c > 0 else NEG)
        return r

    def combo(self, p):
        """derive the sign of p from pairs of recorded facts (p = a*f + b*g + const)"""
        r = ANY
        ap = P.atoms(p)
        fs = [(f, m) for f, m in self.signs.values() if len(f) <= 12 and m != ANY and m != 5 and P.atoms(f) & ap]
        if not fs or len(p) > 12:
            return r
        # single fact + sign of remainder
        for f, m in fs:
            lm = next(iter(f))
            for mono in f:
                if mono in p and mono:
                    k = Fraction(p[mono]) / f[mono]
                    rest = P.sub(p, P.scale(f, P._norm(k)))
                    fm = m if k > 0 else flip(m)
                    if len(rest) < len(p):
                        rm = self.simple(rest)
                        if rm == ANY:
                            continue
                        r &= addmask(fm, rm)
                        if r in (NEG, ZER, POS):
                            return r
        return r

    def simple(self, p):
        if not p:
            return ZER
        if P.is_const(p):
            return POS if P.const_val(p) > 0 else NEG
        q, k = P.canon_sign(p)
        f = self.signs.get(P.key(q))
        r = ANY
        if f:
            r = f[1] if k > 0 else flip(f[1])
        if r in (NEG, ZER, POS):
            return r
        s = 0
        for m, c in p.items():
            mm = self.mono_mask(m)
            if c < 0:
                mm = flip(mm)
            s = addmask(s, mm) if s else mm
        r &= s
        if r == ANY:
            # pair of facts
            for f, m in self.signs.values():
                if len(f) > 6 or m in (ANY, 5):
                    continue
                for mono in f:
                    if mono and mono in p:
                        kk = Fraction(p[mono]) / f[mono]
                        rest = P.sub(p, P.scale(f, P._norm(kk)))
                        if len(rest) < len(p) + 1:
                            q2, k2 = (P.canon_sign(rest) if rest else (rest, 1))
                            fm = m if kk > 0 else flip(m)
                            if not rest:
                                r &= fm
                            elif P.is_const(rest):
                                r &= addmask(fm, POS if P.const_val(rest) > 0 else NEG)
                            else:
                                g = self.signs.get(P.key(q2))
                                if g:
                                    r &= addmask(fm, g[1] if k2 > 0 else flip(g[1]))
                        break
        return r

    def assume(self, p, mask):
        """refine this cell in place by sign(p) in mask; returns False if empty"""
        todo = [(p, mask)]
        while True:
            if not self._assume(todo):
                return False
            # products recorded as zero whose other factors are now known not to be
            todo = []
            for q, m in self.signs.values():
                if m == ZER and len(q) > 1:
                    mc = P.mono_content(q)
                    if mc:
                        if not self.sign(P.div_mono(q, mc)) & ZER:
                            c = [a for a, e in mc if self.atom_mask(a) & ZER]
                            if not c:
                                return False
                            if len(c) == 1 and self.atom_mask(c[0]) != ZER:
                                todo.append((P.var(c[0]), ZER))
                        elif not any(self.atom_mask(a) & ZER for a, e in mc):
                            r = P.div_mono(q, mc)
                            if self.sign(r) != ZER:
                                todo.append((r, ZER))
            if not todo:
                return True

    def _assume(self, todo):
        while todo:
            p, mask = todo.pop()
            cur = self.sign(p)
            m = cur & mask
            if m == 0:
                return False
            if P.is_const(p):
                continue
            q, k = P.canon_sign(p)
            mm = m if k > 0 else flip(m)
            key = P.key(q)
            old = self.signs.get(key)
            if old is not None:
                mm &= old[1]
                if mm == 0:
                    return False
            self.signs[key] = (q, mm)
            if mm == ZER:
                if not self.on_zero(q):
                    return False
                todo.extend(getattr(self, '_pending', []))
                self._pending = []
        return True

    def on_zero(self, q):
        """q == 0: propagate"""
        self._pending = getattr(self, '_pending', [])
        sp = self.sp
        # product: if one monomial factor is the only possibility
        mc = P.mono_content(q)
        if mc:
            rest = P.div_mono(q, mc)
            if P.is_const(rest) or not self.sign(rest) & ZER:
                cand = [a for a, e in mc if self.atom_mask(a) & ZER]
                if len(cand) == 1:
                    q = P.var(cand[0])
                elif not cand:
                    return False
                else:
                    return True
        so = self.find_sos(P.canon_sign(q)[0])
        if so is not None:
            for c in so[1]:
                if c:
                    self._pending.append((c, ZER))
            return True
        # all terms same weak sign -> each term zero
        masks = []
        for m, c in q.items():
            mm = self.mono_mask(m)
            masks.append(mm if c > 0 else flip(mm))
        if len(q) > 1 and (all(not x & NEG for x in masks) or all(not x & POS for x in masks)):
            if any(not x & ZER for x in masks):
                return False
            for m in q:
                if len(m) == 1:
                    self._pending.append((P.var(m[0][0]), ZER))
                else:
                    self._pending.append(({m: 1}, ZER))
            return True
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1:
                a = m[0][0]
                at = sp.atoms[a]
                if at.kind == 'sqrt':
                    # radicand zero
                    so = P.sos_quadratic(at.red) if len(at.red) <= 30 else None
                    if so is not None:
                        if so[1] != 0:
                            return False
                        for _, fo in so[0]:
                            self._pending.append((fo, ZER))
                    else:
                        self._pending.append((at.red, ZER))
                    return True
        if len(q) <= 30:
            for sg in (1, -1):
                so = P.sos_quadratic(q if sg > 0 else P.neg(q))
                if so is not None and len(so[0]) > 1:
                    if so[1] != 0:
                        return False
                    for _, fo in so[0]:
                        self._pending.append((fo, ZER))
                    return True
        # solve for a variable occurring linearly with a constant coefficient
        best = None
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if (sp.atoms[a].kind == 'var' or sp.atoms[a].kind == 'fn' and sp.atoms[a].red is None and not sp.atoms[a].name.startswith(('sin(', 'cos('))) and sum(1 for mm in q for x, _ in mm if x == a) == 1 and a != sp.pi:
                    if best is None or a > best[0]:
                        best = (a, c)
        if best is not None:
            a, c = best
            rest = {m: v for m, v in q.items() if m != ((a, 1),)}
            # skip when the rest mentions functions of a
            if not self.mentions(rest, a):
                sol = P.scale(rest, P._norm(Fraction(-1) / c))
                for b in list(self.subst):
                    self.subst[b] = P.subst(self.subst[b], a, sol)
                self.subst[a] = sol
                self.memo = {}
                # rewrite facts
                old = self.signs
                self.signs = {}
                for f, m in old.values():
                    if f is q:
                        continue
                    f2 = sp.reduce(P.subst(f, a, sol))
                    if not f2:
                        if not m & ZER:
                            return False
                        continue
                    if f2 is f or f2 == f:
                        k2 = P.key(f)
                        self.signs[k2] = (f, m)
                    else:
                        self._pending.append((f2, m))
                return self.resolve_rsubst(a)
            return True
        return self.solve_quotient(q)

    def resolve_rsubst(self, a):
        """variable a just received a polynomial value: bring the quotients up to date"""
        for b, r in list(self.rsubst.items()):
            if a == b:
                continue
            if a in P.atoms(r.n) or any(a in P.atoms(f) for f, _ in r.d.values()):
                n = self.apply_subst(r.n)
                out = RF(n)
                for f, e in r.d.values():
                    g = self.apply_subst(f)
                    if not g:
                        return False
                    for _ in range(e):
                        out = self.r_mul(out, self.r_inv(RF(g)))
                self.rsubst[b] = out
        return True

    def solve_quotient(self, q):
        """q == 0 with q = A*x + B, A nonzero here: x = -B/A"""
        sp = self.sp
        if not 1 < len(q) <= 12:
            return True
        best = None
        for a in P.atoms(q):
            if a not in sp.leaves or a in self.rsubst or a in self.subst:
                continue
            A = {}
            B = {}
            for m, c in q.items():
                e = dict(m).get(a, 0)
                if e > 1:
                    A = None
                    break
                if e:
                    A[tuple((x, k) for x, k in m if x != a)] = c
                else:
                    B[m] = c
            if not A or P.is_const(A):
                continue
            sA = self.sign(A)
            if sA & ZER or self.mentions(A, a) or self.mentions(B, a):
                continue
            score = (len(A), -a)
            if best is None or score < best[0]:
                best = (score, a, A, B, sA)
        if best is None:
            return True
        _, a, A, B, sA = best
        val = self.r_mul(RF(P.neg(B)), self.r_inv(RF(A)))
        for b, r in list(self.rsubst.items()):
            if a in P.atoms(r.n) or any(a in P.atoms(f) for f, _ in r.d.values()):
                return True
        self.rsubst[a] = val
        self.memo = {}
        old = self.signs
        self.signs = {}
        nB = P.neg(B)
        for f, m in old.values():
            if f is q:
                self.signs[P.key(f)] = (f, m)
                continue
            d = max((dict(mm).get(a, 0) for mm in f), default=0)
            if d == 0:
                self.signs[P.key(f)] = (f, m)
                continue
            if d > 4 or len(f) > 60:
                continue
            e = d
            if d % 2 and sA not in (NEG, POS):
                e = d + 1
            f2 = {}
            for mm, c in f.items():
                k = dict(mm).get(a, 0)
                t = {tuple((x, y) for x, y in mm if x != a): c}
                f2 = P.add(f2, P.mul(t, P.mul(P.powi(nB, k), P.powi(A, e - k))))
            f2 = sp.reduce(f2)
            if e % 2 and sA == NEG:
                f2 = P.neg(f2)
            if not f2:
                if not m & ZER:
                    return False
                continue
            self._pending.append((f2, m))
        return True

    def mentions(self, p, a):
        seen = set()
        st = list(P.atoms(p))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == a:
                return True
            at = self.sp.atoms[x]
            if at.args:
                for r in at.args:
                    if isinstance(r, RF):
                        st.extend(P.atoms(r.n))
                        for f, _ in r.d.values():
                            st.extend(P.atoms(f))
        return False

    # ------------------------------------------------------------ rational functions
    def r_const(self, c):
        return RF(P.const(c))

    def r_mul(self, a, b):
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        if not a.d and not b.d:
            return RF(self.sp.mul(a.n, b.n))
        return self.simplify(RF(self.sp.mul(a.n, b.n), dmul(a.d, b.d)))

    def r_neg(self, a):
        if isinstance(a, Bad):
            return a
        return RF(P.neg(a.n), a.d)

    def r_add(self, a, b, sgn=1):
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        bn = b.n if sgn > 0 else P.neg(b.n)
        if not a.d and not b.d:
            return RF(P.add(a.n, bn))
        # lcm of denominators
        l = dict(a.d)
        for k, (p, e) in b.d.items():
            if k not in l or l[k][1] < e:
                l[k] = (p, e)
        na = a.n
        nb = bn
        for k, (p, e) in l.items():
            ea = a.d.get(k, (p, 0))[1]
            eb = b.d.get(k, (p, 0))[1]
            for _ in range(e - ea):
                na = self.sp.mul(na, p)
            for _ in range(e - eb):
                nb = self.sp.mul(nb, p)
        return self.simplify(RF(P.add(na, nb), l))

    def r_inv(self, a, why='division'):
        if isinstance(a, Bad):
            return a
        if not a.n:
            return Bad('division by zero')
        num = P.ONE
        for p, e in a.d.values():
            for _ in range(e):
                num = self.sp.mul(num, p)
        den = {}
        mc = P.mono_content(a.n)
        rest = P.div_mono(a.n, mc) if mc else a.n
        k = 1
        if P.is_const(rest):
            k = P.const_val(rest)
        else:
            rest, k = P.canon_sign(rest)
            den[P.key(rest)] = (rest, 1)
        for at, e in mc:
            v = P.var(at)
            den[P.key(v)] = (v, e)
        return self.simplify(RF(P.scale(num, P._norm(Fraction(1) / k)), den))

    def simplify(self, r):
        if not r.n:
            return RF({})
        if not r.d:
            return r
        n = r.n
        d = r.d
        changed = False
        for k in list(d):
            p, e = d[k]
            while e > 0:
                if len(p) == 1:
                    (m, c), = p.items()
                    if all(P._mono_try_div(x, m) is not None for x in n):
                        n = P.div_mono(n, m)
                    else:
                        break
                else:
                    if len(n) < len(p) and not self.sp.reducible:
                        break
                    if len(n) > 3000:
                        break
                    qd = P.try_div(n, p)
                    if qd is None:
                        break
                    n = qd
                e -= 1
                if not changed:
                    d = dict(d)
                    changed = True
                if e:
                    d[k] = (p, e)
                else:
                    del d[k]
        # a sqrt atom in the denominator against its radicand in the numerator
        if len(n) > 1 and len(n) <= 200:
            for k in list(d):
                p, e = d[k]
                if len(p) != 1:
                    continue
                (m, c), = p.items()
                if len(m) != 1 or m[0][1] != 1 or c != 1:
                    continue
                at = self.sp.atoms[m[0][0]]
                if at.kind != 'sqrt' or len(at.red) < 2 or len(at.red) > len(n):
                    continue
                qd = P.try_div(n, at.red)
                if qd is not None:
                    if not changed:
                        d = dict(d)
                        changed = True
                    del d[k]
                    n = self.sp.mul(qd, p)
                    if e > 1:
                        d[k] = (p, e - 1)
                        return self.simplify(RF(n, d))
        return RF(n, d)

    def den_poly(self, r):
        q = P.ONE
        for p, e in r.d.values():
            for _ in range(e):
                q = self.sp.mul(q, p)
        return q

    def equal_rf(self, a, b):
        if isinstance(a, Bad) or isinstance(b, Bad):
            return isinstance(a, Bad) and isinstance(b, Bad)
        d = self.r_add(a, b, -1)
        n = self.sp.reduce(d.n)
        if not n:
            return True
        n = self.apply_subst(n)
        if not n:
            return True
        # multiply by even powers of sqrt atoms in the numerator is already reduced; try zero facts
        for f, m in self.signs.values():
            if m == ZER and len(f) > 1:
                if P.try_div(n, f) is not None:
                    return True
        n2 = self.mod_zero(n)
        if not n2:
            return True
        # linear dependence over several sqrt atoms is canonical; otherwise different
        return False

    def close_rf(self, a, b, tol):
        """the same monomials with coefficients equal to a relative tolerance (for rounded constants)"""
        if self.equal_rf(a, b):
            return True
        l = self.sp.reduce(self.sp.mul(a.n, self.den_poly(b)))
        r = self.sp.reduce(self.sp.mul(b.n, self.den_poly(a)))
        return l.keys() == r.keys() and all(abs(Fraction(l[m]) - Fraction(r[m])) <= tol * max(abs(Fraction(l[m])), abs(Fraction(r[m]))) for m in l)

    def mod_zero(self, n):
        """reduce modulo facts f == 0 using a leading power product"""
        zs = [f for f, m in self.signs.values() if m == ZER and 1 <= len(f) <= 12]
        if not zs:
            return n
        n = self.mod_facts(n, zs)
        if not n:
            return n
        roots = []
        seen = {a for m in n for a, e in m}
        for a in seen:
            at = self.sp.atoms[a]
            if at.kind == 'sqrt' and len(at.red) <= 12:
                r = self.mod_facts(at.red, zs)
                if not r:
                    roots.append(P.var(a))
                elif P.is_const(r) and P.const_val(r) > 0:
                    k = P.sqrt_exact(r)
                    if k is not None:
                        roots.append(P.sub(P.var(a), k if P.const_val(k) > 0 else P.neg(k)))
        return self.mod_facts(n, roots) if roots else n

    def mod_facts(self, n, zs):
        for _ in range(6):
            changed = False
            for f in zs:
                l = P._lexlead(f)
                c = f[l]
                if not l:
                    continue
                tail = {m: v for m, v in f.items() if m != l}
                for m in list(n):
                    if m not in n:
                        continue
                    qm = P._mono_try_div(m, l)
                    if qm is not None:
                        cc = n[m]
                        n = P.sub(n, self.sp.reduce(P.mul({qm: P._norm(Fraction(cc) / c)}, f)))
                        changed = True
                        if not n:
                            return n
            if not changed:
                break
        return n

    def apply_subst(self, p):
        for a, s in self.subst.items():
            p = P.subst(p, a, s)
        return self.sp.reduce(p)

    # ------------------------------------------------------------ evaluation
    def need_sign(self, p, want):
        """truth of 'sign(p) in want'; splits the cell when undecided"""
        p = self.apply_subst(p) if self.subst else p
        m = self.sign(p)
        if m & want == m:
            return True
        if m & want == 0:
            return False
        p2 = self.mod_zero(p) if len(p) > 1 else p
        if p2 != p:
            if not p2:
                return bool(want & ZER)
            p = p2
            m &= self.sign(p)
            if m & want == m:
                return True
            if m & want == 0:
                return False
        q, parts = self.canon_split(p)
        if parts is None:
            # choose the coarsest split that decides
            qq, k = P.canon_sign(p)
            if P.key(qq) == P.key(q):
                wq = want if k > 0 else flip(want)
                cur = self.sign(q)
                parts = [cur & wq, cur & ~wq & ANY]
            else:
                cur = self.sign(q)
                parts = [x for x in (cur & NEG, cur & ZER, cur & POS) if x]
        parts = [x for x in parts if x]
        if len(parts) < 2:
            raise Unknown('cannot split on %s in {%s}' % (self.sp.pstr(p, 60), '; '.join(self.describe())))
        raise SplitSign(q, parts)

    def ev(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self._ev_deep(n)
        return r

    def _ev_deep(self, n0):
        # iterative post-order for arithmetic nodes to stay clear of the recursion limit
        memo = self.memo
        stack = [n0]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            if n.id in self.cut:
                a = self.sp.var_atom(self.cut[n.id])
                self.sp.leaves.add(a)
                memo[n.id] = self.leaf_value(a)
                stack.pop()
                continue
            if n.k in ('+', '-', '*', '/', 'neg', 'fn'):
                pend = [x for x in n.a if isinstance(x, N) and x.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                try:
                    memo[n.id] = self._arith(n)
                except Reseed as e:
                    if e.node is None:
                        e.node = n
                    raise
                stack.pop()
            elif n.k == 'ite':
                c = self.evb(n.a[0])
                t = n.a[1] if c else n.a[2]
                if t.id not in memo:
                    if self.is_bool(t):
                        memo[t.id] = self.evb(t)
                    else:
                        stack.append(t)
                        continue
                memo[n.id] = memo[t.id]
                stack.pop()
            else:
                memo[n.id] = self._leaf(n)
                stack.pop()
        return memo[n0.id]

    def is_bool(self, n):
        while n.k == 'ite':
            n = n.a[1] if n.a[1].k not in ('undef', 'bot') else n.a[2]
        return n.k in ('T', 'F', 'cmp', 'cmpi', 'not', 'and', 'or', 'bvar')

    def is_int(self, n):
        d = 0
        while n.k == 'ite':
            n = n.a[1] if n.a[1].k not in ('undef', 'bot') else n.a[2]
        return n.k in ('ic', 'ivar', 'iop', 'f2i')

    def leaf_value(self, a):
        r = self.rsubst.get(a)
        if r is not None:
            return r
        s = self.subst.get(a)
        if s is None:
            return RF(P.var(a))
        return self.poly_at(s) if self.rsubst else RF(s)

    def poly_at(self, p):
        """a polynomial with the solved variables replaced by their quotients"""
        if not any(a in self.rsubst for a in P.atoms(p)):
            return RF(p)
        r = RF({})
        for m, c in p.items():
            t = RF(P.const(c))
            for a, e in m:
                f = self.rsubst.get(a) or RF(P.var(a))
                for _ in range(e):
                    t = self.r_mul(t, f)
            r = self.r_add(r, t)
        return r

    def _leaf(self, n):
        k = n.k
        if k == 'q':
            return RF(P.const(n.a[0]))
        if k == 'var':
            a = self.sp.var_atom(n.a[0])
            self.sp.leaves.add(a)
            return self.leaf_value(a)
        if k == 'pi':
            return RF(P.var(self.sp.pi))
        if k == 'huge':
            i = self.sp.var_atom('#' + n.a[0], POS)
            self.sp.huge = sorted(set(self.sp.huge) | {i}, key=lambda i: self.sp.atoms[i].name != '#inf')
            return RF(P.var(i))
        if k == 'undef':
            return Bad('uninitialised')
        if k == 'bot':
            return Bad('unreachable')
        if k == 'nan':
            return Bad('nan')
        if k in ('T', 'F', 'cmp', 'cmpi', 'not', 'and', 'or', 'bvar'):
            return self.evb(n)
        if k == 'i2f':
            try:
                v = self.evi(n.a[0], free=True)
            except Unknown:
                v = None
            if isinstance(v, int):
                return RF(P.const(v))
            return self.int_real(n.a[0])
        if k in ('ic', 'ivar', 'iop', 'f2i'):
            return self.evi(n)
        raise Unknown('node ' + k)

    def int_real(self, n):
        if n.k == 'ic':
            return RF(P.const(n.a[0]))
        if n.k == 'ivar':
            return RF(P.var(self.sp.var_atom('real(%s)' % n.a[0])))
        if n.k == 'iop' and n.a[0] in ('add', 'sub', 'mul'):
            a, b = self.int_real(n.a[1]), self.int_real(n.a[2])
            return self.r_mul(a, b) if n.a[0] == 'mul' else self.r_add(a, b, 1 if n.a[0] == 'add' else -1)
        if n.k == 'ite':
            return self.int_real(n.a[1] if self.evb(n.a[0]) else n.a[2])
        if n.k == 'iop':
            a, b = self.int_real(n.a[1]), self.int_real(n.a[2])
            r = self.fnatom('i:' + n.a[0], [a, b])
            if n.a[0] in ('srem', 'urem') and not isinstance(r, Bad) and not a.d and not b.d and self.sign(a.n) & NEG == 0 and self.sign(b.n) == POS:
                # the remainder of a number that is not negative
                self.assume(r.n, POS | ZER)
                self.assume(P.sub(b.n, r.n), POS)
                self.assume(P.sub(a.n, r.n), POS | ZER)
            return r
        if n.k == 'f2i':
            return self.f_trunc(self.ev(n.a[0]))
        raise Unknown('int ' + n.k)

    def _arith(self, n):
        k = n.k
        m = self.memo
        if k == 'fn':
            return self.fn(n.a[0], [m[x.id] for x in n.a[1:]])
        a = m[n.a[0].id]
        if k == 'neg':
            return self.r_neg(a)
        b = m[n.a[1].id]
        if k == '+':
            r = self.r_add(a, b)
            if isinstance(r, RF) and 2 < len(r.n) <= 60:
                self.note_squares(n, r)
            return r
        if k == '-':
            return self.r_add(a, b, -1)
        if k == '*':
            return self.r_mul(a, b)
        if isinstance(a, Bad):
            return a
        if isinstance(b, Bad):
            return b
        if not b.n:
            return Bad('division by zero')
        return self.r_mul(a, self.r_inv(b))

    def note_squares(self, n, r):
        """remember a sum written as squares: it is zero only where every term is"""
        comps = []
        st = [n]
        while st:
            x = st.pop()
            if x.k == '+':
                st += [x.a[0], x.a[1]]
            elif x.k == '*' and x.a[0] is x.a[1]:
                comps.append(self.memo[x.a[0].id])
            else:
                return
            if len(comps) > 4:
                return
        if len(comps) < 2 or any(not isinstance(c, RF) for c in comps):
            return
        comps = [c for c in comps if c.n]
        d0 = comps[0].d
        for c in comps:
            if c.d.keys() != d0.keys() or any(c.d[k][1] != d0[k][1] for k in d0):
                return
        tot = {}
        for c in comps:
            tot = P.add(tot, self.sp.mul(c.n, c.n))
        if not tot:
            return
        mc = P.mono_content(tot)
        if mc:
            return
        q, k = P.canon_sign(tot)
        key = P.key(q)
        if key not in self.sp.sos:
            self.sp.sos[key] = (k, [c.n for c in comps])

    def find_sos(self, q):
        return self.sp.sos.get(P.key(q)) if self.sp.sos else None

    # ---- functions
    def find_fn(self, name, args):
        for ar, i in self.sp.fns.get(name, ()):
            if all(self.same_rf(x, y) for x, y in zip(ar, args)):
                return i
        return None

    def same_rf(self, a, b):
        if a is b:
            return True
        if len(a.d) != len(b.d) or a.d.keys() != b.d.keys():
            pass
        else:
            if all(a.d[k][1] == b.d[k][1] for k in a.d):
                return a.n == b.n
        d = self.r_add(a, b, -1)
        return not self.sp.reduce(d.n)

    def add_fn(self, name, args, mask=ANY, kind='fn', red=None):
        i = self.sp.new('%s(%s)' % (name, ', '.join(self.sp.rfstr(x) for x in args)), kind, args, mask, red)
        self.sp.fns.setdefault(name, []).append((args, i))
        return i

    def fnatom(self, name, args, mask=ANY):
        for a in args:
            if isinstance(a, Bad):
                return a
        i = self.find_fn(name, args)
        if i is None:
            i = self.add_fn(name, args, mask)
        s = self.subst.get(i)
        if s is not None:
            return RF(s)
        b = {'atan2': ((1, -1), (1, 1)), 'acos': ((1, -1), (0, 1)), 'asin': ((Fraction(1, 2), -1), (Fraction(1, 2), 1))}.get(name)
        if b:
            for c, k in b:
                if c:
                    self.assume({((self.sp.pi, 1),): c, ((i, 1),): k}, POS if (name, k) == ('atan2', 1) else POS | ZER)
            if name == 'atan2':
                y = args[0]
                m = self.sign(y.n)
                for f, e in y.d.values():
                    fm = self.sign(f)
                    m = mulmask(m, fm if e % 2 else mulmask(fm, fm))
                if m in (NEG, POS):
                    self.assume(P.var(i), m)
                    if m == POS:
                        self.assume({((self.sp.pi, 1),): 1, ((i, 1),): -1}, POS)
        return RF(P.var(i))

    def fn(self, name, args):
        for a in args:
            if isinstance(a, Bad):
                return a
        if name == 'sqrt':
            return self.f_sqrt(args[0])
        if name in ('sin', 'cos'):
            return self.f_trig(name, args[0])
        if name == 'acos':
            x = args[0]
            if not x.d and P.is_const(x.n):
                v = P.const_val(x.n)
                if v == 1:
                    return RF({})
                if v == 0:
                    return RF(P.scale(P.var(self.sp.pi), Fraction(1, 2)))
                if v == -1:
                    return RF(P.var(self.sp.pi))
            return self.fnatom('acos', [x], POS | ZER)
        if name == 'asin':
            x = args[0]
            if not x.n:
                return RF({})
            return self.fnatom('asin', [x])
        if name == 'atan2':
            return self.f_atan2(args[0], args[1])
        if name in ('exp', 'exp2'):
            if not args[0].n:
                return RF(P.ONE)
            if name == 'exp2' and not args[0].d and P.is_const(args[0].n):
                v = Fraction(P.const_val(args[0].n))
                if v.denominator == 1 and abs(v) < 100:
                    return RF(P.const(Fraction(2) ** int(v)))
            x = args[0]
            if name == 'exp2' and not x.d and len(x.n) > 1 and () in x.n:
                v = Fraction(x.n[()])
                k = v.numerator // v.denominator
                if k:
                    return self.r_mul(self.fn('exp2', [self.r_add(x, RF(P.const(-k)))]), RF(P.const(Fraction(2) ** k)))
            if x.n[P._lexlead(x.n)] < 0 and () not in x.n:
                return self.r_inv(self.fn(name, [self.r_neg(x)]))
            return self.fnatom(name, args, POS)
        if name == 'log' and not args[0].d and args[0].n == P.ONE:
            return RF({})
        if name == 'fmod':
            return self.f_fmod(args[0], args[1])
        if name == 'floor':
            return self.f_floor(args[0])
        if name == 'ceil':
            return self.r_neg(self.f_floor(self.r_neg(args[0])))
        if name == 'trunc':
            return self.f_trunc(args[0])
        if name == 'frac':
            return self.frac(args[0])
        if name == 'pow':
            b, e = args
            if not e.d and P.is_const(e.n):
                v = Fraction(P.const_val(e.n)) if e.n else Fraction(0)
                if v == Fraction(1, 2):
                    return self.f_sqrt(b)
                if v.denominator == 1 and abs(v) <= 12:
                    r = RF(P.ONE)
                    for _ in range(abs(int(v))):
                        r = self.r_mul(r, b)
                    return self.r_inv(r) if v < 0 else r
            if not b.d and P.is_const(b.n) and b.n:
                v = Fraction(P.const_val(b.n))
                if v == 1:
                    return RF(P.ONE)
                k = 1
                while k < 40 and Fraction(2) ** k < v:
                    k += 1
                if Fraction(2) ** k == v:
                    return self.fn('exp2', [self.r_mul(e, RF(P.const(k)))])
            return self.fnatom('pow', args)
        if name == 'ldexp':
            raise Unknown('ldexp')
        return self.fnatom(name, args)

    def frac(self, z):
        """z - floor(z), in [0, 1): one atom for all arguments that differ by an integer or a sign"""
        if isinstance(z, Bad):
            return z
        if not z.d and P.is_const(z.n):
            v = Fraction(P.const_val(z.n)) if z.n else Fraction(0)
            return RF(P.const(v - v.numerator // v.denominator))
        b = self.bounded_frac(z)
        if b is not None:
            return b
        part = None
        for ar, i in self.sp.fns.get('frac', ()):
            for sg in (-1, 1):
                d = self.r_add(z, ar[0], sg)
                n = d.n
                if d.d or not (P.is_const(n) or not n):
                    continue
                v = Fraction(P.const_val(n)) if n else Fraction(0)
                if v.denominator != 1:
                    if v.denominator <= 60:
                        part = part or (i, sg, v)
                    continue
                return self._frac_atom(i, sg)
        if part is not None:
            # z is a known argument plus a constant: shift its fractional part instead
            i, sg, v = part
            f = self._frac_atom(i, -1)
            b = self.bounded_frac(self.r_add(RF(P.const(v)), f, -sg))
            if b is not None:
                return b
        i = self.add_fn('frac', [z], POS | ZER)
        return self._frac_atom(i, -1)

    def bounded_frac(self, z, lim=8):
        """z - floor(z) when the facts of the cell bound z: the cell is split at the integers in between"""
        if z.d:
            D = P.ONE
            for p, e in z.d.values():
                for _ in range(e):
                    D = self.sp.mul(D, p)
            if self.sign(D) == NEG:
                D = P.neg(D)
                N_ = P.neg(z.n)
            elif self.sign(D) == POS:
                N_ = z.n
            else:
                return None
        else:
            N_, D = z.n, P.ONE
        if len(N_) > 10 or len(D) > 10:
            return None

        def never(k, m):
            d = P.sub(N_, P.scale(D, k))
            s = self.sign(d)
            return not s & m or linear_empty(self, [(d, m)])
        if not never(-lim, NEG) or not never(lim, POS | ZER):
            return None
        lo = -lim
        while lo < lim and never(lo + 1, NEG):
            lo += 1
        hi = lo
        while hi < lim and not never(hi + 1, POS | ZER):
            hi += 1
        for k in range(hi, lo, -1):
            if self.need_sign_rf(self.r_add(z, RF(P.const(k)), -1), POS | ZER):
                return self.r_add(z, RF(P.const(k)), -1)
        return self.r_add(z, RF(P.const(lo)), -1)

    def _frac_atom(self, i, sg):
        f = P.var(i)
        s = self.subst.get(i)
        if s is not None:
            f = s
        if not P.is_const(f) and f:
            self.assume(P.sub(P.ONE, f), POS)
        if sg < 0:
            return RF(f)
        if not f or self.need_sign(f, ZER):
            return RF({})
        return RF(P.sub(P.ONE, f))

    def f_floor(self, z):
        f = self.frac(z)
        return f if isinstance(f, Bad) else self.r_add(z, f, -1)

    def f_trunc(self, z):
        if isinstance(z, Bad):
            return z
        if self.need_sign_rf(z, POS | ZER):
            return self.f_floor(z)
        return self.r_neg(self.f_floor(self.r_neg(z)))

    def f_fmod(self, x, y):
        # x - y*trunc(x/y); the sign of y does not matter
        if not y.n:
            return Bad('fmod by zero')
        if not self.need_sign_rf(y, POS | ZER):
            y = self.r_neg(y)
        z = self.r_mul(x, self.r_inv(y))
        if isinstance(z, Bad):
            return z
        if self.need_sign_rf(z, POS | ZER):
            return self.r_mul(y, self.frac(z))
        return self.r_neg(self.r_mul(y, self.frac(self.r_neg(z))))

    def f_sqrt(self, x):
        sp = self.sp
        if not x.n:
            return RF({})
        n = x.n
        out_d = RF(P.ONE)
        for p, e in x.d.values():
            h = (e + 1) // 2
            if e % 2:
                n = sp.mul(n, p)
            s = self.sign(p)
            if s == NEG:
                ap = P.neg(p)
            elif not s & NEG:
                ap = p
            else:
                self.need_sign(p, POS | ZER)
                ap = p if not self.sign(p) & NEG else P.neg(p)
            f = self.r_inv(RF(ap))
            for _ in range(h):
                out_d = self.r_mul(out_d, f)
        if not n:
            return RF({})
        return self.r_mul(self.p_sqrt(n), out_d)

    def p_sqrt(self, n):
        sp = self.sp
        if P.is_const(n):
            c = Fraction(P.const_val(n))
            if c < 0:
                return Bad('sqrt of a negative number')
        c = P.content(n)
        # squared content
        from math import isqrt
        c = Fraction(c)
        co = 1
        for f in (c.numerator, c.denominator):
            pass
        sn, rn = _sqfree(c.numerator)
        sd, rd = _sqfree(c.denominator)
        # sqrt(sn^2*rn/(sd^2*rd)) = sn/(sd*rd)*sqrt(rn*rd)
        co = Fraction(sn, sd * rd)
        n = P.scale(n, P._norm(Fraction(rn * rd) / c))
        res = RF(P.const(co))
        mc = P.mono_content(n)
        odd = []
        for a, e in mc:
            h = e // 2
            if h:
                am = self.atom_mask(a)
                if not am & NEG:
                    v = P.var(a)
                elif not am & POS:
                    v = P.neg(P.var(a))
                elif h % 2 == 0:
                    v = P.var(a)
                else:
                    raise SplitSign(P.var(a), [x for x in (am & NEG, am & (ZER | POS)) if x])
                res = self.r_mul(res, RF(P.powi(v, h)))
                n = P.div_mono(n, ((a, 2 * h),))
        if P.is_const(n) and P.const_val(n) == 1:
            return res
        r = P.sqrt_exact(n) if len(n) <= 200 else None
        if r is not None:
            s = self.sign(r)
            if not s & NEG:
                return self.r_mul(res, RF(r))
            if not s & POS:
                return self.r_mul(res, RF(P.neg(r)))
            q, k = P.canon_sign(r)
            raise SplitSign(q, [x for x in (s & NEG, s & (ZER | POS)) if x] if k > 0 else [x for x in (flip(s) & NEG, flip(s) & (ZER | POS)) if x])
        # known radicands dividing n
        for i in list(sp.reducible):
            at = sp.atoms[i]
            if at.kind == 'sqrt' and len(at.red) > 1 and len(at.red) < len(n):
                qd = P.try_div(n, at.red)
                if qd is not None and not self.sign(qd) & NEG:
                    return self.r_mul(self.r_mul(res, RF(P.var(i))), self.p_sqrt(qd))
        for ar, i in sp.fns.get('sqrt', ()):
            if ar[0].n == n:
                return self.r_mul(res, RF(P.var(i)))
        mask = POS | ZER
        if P.is_const(n):
            mask = POS
        else:
            so = P.sos_quadratic(n) if len(n) <= 30 else None
            if so is not None and so[1] > 0:
                mask = POS
        i = self.add_fn('sqrt', [RF(n)], mask, 'sqrt', n)
        if self.sign(n) == POS:
            pass
        return self.r_mul(res, RF(P.var(i)))

    def f_trig(self, name, x):
        sp = self.sp
        if not x.n:
            return RF(P.ONE if name == 'cos' else {})
        # inverse functions
        if not x.d and len(x.n) == 1:
            (m, c), = x.n.items()
            if len(m) == 1 and m[0][1] == 1:
                at = sp.atoms[m[0][0]]
                r = None
                if c in (1, -1) and at.kind == 'fn' and at.name.startswith('acos('):
                    w = at.args[0]
                    r = w if name == 'cos' else self.f_sqrt(self.r_add(RF(P.ONE), self.r_mul(w, w), -1))
                    if name == 'sin' and c < 0:
                        r = self.r_neg(r)
                elif c in (1, -1) and at.kind == 'fn' and at.name.startswith('asin('):
                    w = at.args[0]
                    r = w if name == 'sin' else self.f_sqrt(self.r_add(RF(P.ONE), self.r_mul(w, w), -1))
                    if name == 'sin' and c < 0:
                        r = self.r_neg(r)
                elif c in (1, -1) and at.kind == 'fn' and at.name.startswith('atan2('):
                    yy, xx = at.args
                    h = self.f_sqrt(self.r_add(self.r_mul(yy, yy), self.r_mul(xx, xx)))
                    if not isinstance(h, Bad) and h.n:
                        hs = self.need_sign(h.n, POS)
                        if hs:
                            r = self.r_mul(xx if name == 'cos' else yy, self.r_inv(h))
                            if name == 'sin' and c < 0:
                                r = self.r_neg(r)
                if r is not None:
                    return r
        # multiples of pi
        if not x.d and len(x.n) == 1:
            (m, c), = x.n.items()
            if m == ((sp.pi, 1),):
                v = Fraction(c) * 2
                if v.denominator == 1:
                    k = int(v) % 4
                    if name == 'sin':
                        return RF(P.const([0, 1, 0, -1][k]))
                    return RF(P.const([1, 0, -1, 0][k]))
        # shift by multiples of pi/2
        if not x.d and ((sp.pi, 1),) in x.n and len(x.n) > 1:
            c = Fraction(x.n[((sp.pi, 1),)]) * 2
            if c.denominator == 1:
                k = int(c) % 4
                y = RF({m: v for m, v in x.n.items() if m != ((sp.pi, 1),)})
                s, co = (lambda: self.f_trig('sin', y)), (lambda: self.f_trig('cos', y))
                if name == 'sin':
                    return [s, co, lambda: self.r_neg(s()), lambda: self.r_neg(co())][k]()
                return [co, lambda: self.r_neg(s()), lambda: self.r_neg(co()), s][k]()
        # sums of angles
        if not x.d and 1 < len(x.n) <= 6:
            m0 = min(x.n)
            a = RF({m0: x.n[m0]})
            b = RF({m: c for m, c in x.n.items() if m != m0})
            sa, ca, sb, cb = self.f_trig('sin', a), self.f_trig('cos', a), self.f_trig('sin', b), self.f_trig('cos', b)
            if any(isinstance(z, Bad) for z in (sa, ca, sb, cb)):
                return next(z for z in (sa, ca, sb, cb) if isinstance(z, Bad))
            if name == 'sin':
                return self.r_add(self.r_mul(sa, cb), self.r_mul(ca, sb))
            return self.r_add(self.r_mul(ca, cb), self.r_mul(sa, sb), -1)
        # parity: make leading coefficient positive
        neg = False
        if x.n[P._lexlead(x.n)] < 0:
            x = self.r_neg(x)
            neg = True
        # halving against registered arguments
        for ar, i in list(sp.fns.get('sin', ())):
            for k in (2, 4, -2, -4):
                if self.same_rf(self.r_mul(RF(P.const(k)), ar[0]), x):
                    hx = self.r_mul(x, RF(P.const(Fraction(1, 2))))
                    s = self.f_trig('sin', hx)
                    c = self.f_trig('cos', hx)
                    if name == 'sin':
                        r = self.r_mul(RF(P.const(2)), self.r_mul(s, c))
                        return self.r_neg(r) if neg else r
                    return self.r_add(self.r_mul(c, c), self.r_mul(s, s), -1)
        si = self.find_fn('sin', [x])
        ci = self.find_fn('cos', [x])
        if ci is None:
            if self.reseed:
                for ar, i in list(sp.fns.get('cos', ())):
                    for k in (2, 4, -2, -4):
                        if self.same_rf(self.r_mul(RF(P.const(k)), x), ar[0]):
                            raise Reseed()
            ci = self.add_fn('cos', [x])
        if si is None:
            # sin^2 = 1 - cos^2
            si = self.add_fn('sin', [x], red=P.sub(P.ONE, {((ci, 2),): 1}), kind='fn')
        r = RF(P.var(si if name == 'sin' else ci))
        if neg and name == 'sin':
            r = self.r_neg(r)
        return r

    def f_atan2(self, y, x):
        # atan2(k*y, k*x) for the same positive factor is left uninterpreted; exact zero y handled
        if not y.n:
            if not x.n:
                return RF({})
            if self.need_sign_rf(x, POS | ZER):
                return RF({})
            return RF(P.var(self.sp.pi))
        if not x.n:
            return RF(P.scale(P.var(self.sp.pi), Fraction(1, 2) if self.need_sign_rf(y, POS) else Fraction(-1, 2)))
        # common positive factor removal: atan2(l*sin t, l*cos t)
        return self.fnatom('atan2', [y, x])

    def need_sign_rf(self, r, want):
        """sign of a rational function in want"""
        if isinstance(r, Bad):
            raise BadBranch(r.why)
        if not r.d or want in (ZER, NEG | POS):
            return self.need_sign(r.n, want)
        # sign(n/d) = sign(n)*prod sign(odd factors); factors of unknown sign are multiplied in
        n = r.n
        fl = 1
        fs = []
        for p, e in r.d.values():
            if e % 2 == 0:
                continue
            s = self.sign(p)
            if not s & NEG:
                continue
            if not s & POS:
                fl = -fl
                continue
            n = self.sp.mul(n, p)
            fs.append(p)
        if fs and len(r.n) > 1 and n:
            fs.append(r.n)
            q, k = P.canon_sign(n)
            for i, f in enumerate(fs):
                g, j = P.canon_sign(f)
                e = self.sp.prods.setdefault(P.key(g), {})
                e[P.key(q)] = (q, j * k, fs[:i] + fs[i + 1:])
        if fl < 0:
            n = P.neg(n)
        return self.need_sign(n, want)

    # ---- booleans
    def evb(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        r = self._evb(n)
        self.memo[n.id] = r
        return r

    def _evb(self, n):
        k = n.k
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'not':
            v = self.evb(n.a[0])
            return v if isinstance(v, Bad) else not v
        if k == 'and':
            v = self.evb(n.a[0])
            if v is False or isinstance(v, Bad):
                return v
            return self.evb(n.a[1])
        if k == 'or':
            v = self.evb(n.a[0])
            if v is True or isinstance(v, Bad):
                return v
            return self.evb(n.a[1])
        if k == 'ite':
            return self.evb(n.a[1]) if self.evb(n.a[0]) else self.evb(n.a[2])
        if k == 'cmp':
            op, a, b = n.a
            x, y = self.ev(a), self.ev(b)
            if isinstance(x, Bad):
                raise BadBranch(x.why)
            if isinstance(y, Bad):
                raise BadBranch(y.why)
            d = self.r_add(x, y, -1)
            return self.need_sign_rf(d, {'lt': NEG, 'le': NEG | ZER, 'eq': ZER}[op])
        if k == 'cmpi':
            pred, a, b = n.a[0], n.a[1], n.a[2]
            wd = n.a[3] if len(n.a) > 3 else 32
            try:
                x, y = self.evi(a), self.evi(b)
            except Unknown:
                x = y = None
            if isinstance(x, Bad) or isinstance(y, Bad):
                raise BadBranch('branch on an uninitialised integer')
            if x is None:
                # compare as reals
                d = self.r_add(self.int_real(a), self.int_real(b), -1)
                return self.need_sign_rf(d, {'eq': ZER, 'slt': NEG, 'ult': NEG, 'ne': NEG | POS}[pred])
            sx, sy = vg._signed(x, wd), vg._signed(y, wd)
            ux, uy = vg._wrap(x, wd), vg._wrap(y, wd)
            return {'eq': ux == uy, 'ne': ux != uy, 'slt': sx < sy, 'ult': ux < uy}[pred]
        if k == 'bvar':
            v = self.bools.get(n.a[0])
            if v is None:
                raise SplitBool(n.a[0])
            return v
        if k == 'undef':
            raise BadBranch('branch on an uninitialised value')
        if k == 'bot':
            raise BadBranch('unreachable')
        raise Unknown('bool ' + k)

    # ---- integers
    def evi(self, n, mask=None, free=False):
        k = n.k
        if k == 'ic':
            return n.a[0]
        if k == 'ivar':
            nm = n.a[0]
            if nm in self.ints:
                return self.ints[nm]
            bits = self.domains.get(nm)
            if bits is None:
                if mask is not None and 0 <= mask and bin(mask).count('1') <= 8:
                    bits = mask.bit_length()
                else:
                    raise Unknown('unbounded integer ' + nm)
            if isinstance(bits, (list, tuple)):
                raise SplitInt(nm, values=list(bits))
            v = 0
            for b in range(bits):
                if mask is None or mask >> b & 1:
                    x = self.bits.get((nm, b))
                    if x is None:
                        raise SplitInt(nm, bit=b)
                    v |= x << b
            return v
        if k == 'ite':
            return self.evi(n.a[1] if self.evb(n.a[0]) else n.a[2], mask)
        if k == 'iop':
            op, a, b, wd = n.a
            if op in ('and', 'or', 'xor'):
                mb = mask
                if op == 'and':
                    if b.k == 'ic':
                        mm = b.a[0] if mask is None else b.a[0] & mask
                        x = self.evi(a, vg._wrap(mm, wd))
                        return x if isinstance(x, Bad) else x & vg._wrap(mm, wd)
                    x = self.evi(a, mask)
                    if isinstance(x, Bad):
                        return x
                    y = self.evi(b, mask if x else 0)
                    return y if isinstance(y, Bad) else x & y
                if op == 'or' and b.k == 'ic' and mask is not None and (b.a[0] & mask) == mask:
                    return mask
                x = self.evi(a, mask)
                y = self.evi(b, mask)
                if isinstance(x, Bad):
                    return x
                if isinstance(y, Bad):
                    return y
                return x | y if op == 'or' else x ^ y
            x = self.evi(a)
            y = self.evi(b)
            if isinstance(x, Bad):
                return x
            if isinstance(y, Bad):
                return y
            r = vg.iop(op, vg.ic(x), vg.ic(y), wd)
            return r.a[0] if r.k == 'ic' else Bad('integer division by zero')
        if k == 'undef':
            return Bad('uninitialised')
        if k == 'bot':
            return Bad('unreachable')
        if k in ('T', 'F', 'cmp', 'cmpi', 'not', 'and', 'or'):
            return 1 if self.evb(n) else 0
        if k == 'q':
            if n.a[0].denominator == 1:
                return int(n.a[0])
        raise Unknown('int ' + k)


class Reseed(Exception):
    """a half angle met after its double: restart with the half angle registered first"""
    node = None


class BadBranch(Exception):
    """control depends on a value that has no real meaning"""


def _sqfree(n):
    """n = s^2 * r, small square-free part extraction"""
    s = 1
    r = n
    f = 2
    while f * f <= r and f < 2000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    from math import isqrt
    k = isqrt(r)
    if k * k == r:
        return s * k, 1
    return s, r


def univariate_factors(p):
    """a x^2 + b x + c with rational roots -> (x - r1, x - r2, a)"""
    at = None
    co = {0: 0, 1: 0, 2: 0}
    for m, c in p.items():
        if not m:
            co[0] = c
            continue
        if len(m) > 1 or m[0][1] > 2 or at is not None and m[0][0] != at:
            return None
        at = m[0][0]
        co[m[0][1]] = c
    if not co[2] or not co[0]:
        return None
    d = Fraction(co[1]) ** 2 - 4 * Fraction(co[2]) * co[0]
    if d < 0:
        return None
    from math import isqrt
    n, dd = isqrt(d.numerator), isqrt(d.denominator)
    if n * n != d.numerator or dd * dd != d.denominator:
        return None
    s = Fraction(n, dd)
    r = [(-co[1] + sg * s) / (2 * Fraction(co[2])) for sg in (1, -1)]
    return tuple(P.add(P.var(at), P.const(P._norm(-x))) for x in r) + (co[2],)


def mulmask(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == ZER or y == ZER:
                        r |= ZER
                    elif x == y:
                        r |= POS
                    else:
                        r |= NEG
    return r


def addmask(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == ZER:
                        r |= y
                    elif y == ZER or x == y:
                        r |= x
                    else:
                        r |= ANY
    return r


def dmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for k, (p, e) in b.items():
        if k in r:
            r[k] = (p, r[k][1] + e)
        else:
            r[k] = (p, e)
    return r


class Budget(Exception):
    pass


def partition(ctx, fun, budget=20000):
    """Evaluate fun(ctx) over a partition of ctx fine enough for every gating condition fun meets
    to be decided; yields (cell, result).  The partition is built on demand by sign refinement."""
    stack = [ctx]
    n = 0
    while stack:
        c = stack.pop()
        n += 1
        if n > budget:
            raise Budget('partition larger than %d cells' % budget)
        try:
            r = fun(c)
        except SplitSign as s:
            for m in reversed(s.parts):
                d = c.child()
                if d.assume(s.p, m):
                    stack.append(d)
            continue
        except SplitInt as s:
            if s.values is not None:
                for v in reversed(s.values):
                    d = c.child()
                    d.ints[s.name] = v
                    stack.append(d)
            else:
                for v in (1, 0):
                    d = c.child()
                    d.bits[(s.name, s.bit)] = v
                    stack.append(d)
            continue
        except SplitBool as s:
            for v in (False, True):
                d = c.child()
                d.bools[s.key] = v
                stack.append(d)
            continue
        yield c, r


# ---------------------------------------------------------------- emptiness of a cell
def linear_empty(ctx, extra=()):
    """True if the recorded sign facts are contradictory as linear constraints over their monomials
    (convex-polyhedra emptiness by exact simplex-free Fourier-Motzkin with small size limits)."""
    cons = []   # (dict mono->coef, strict)  meaning sum >= 0 or > 0
    for p, m in list(ctx.signs.values()) + list(extra):
        if len(p) > 14:
            continue
        if m == POS:
            cons.append((p, True))
        elif m == (POS | ZER):
            cons.append((p, False))
        elif m == NEG:
            cons.append((P.neg(p), True))
        elif m == (NEG | ZER):
            cons.append((P.neg(p), False))
        elif m == ZER:
            cons.append((p, False))
            cons.append((P.neg(p), False))
    monos = set()
    for p, _ in cons:
        monos |= set(p)
    monos.discard(())
    # a constraint times a positive atom that occurs in products with its other atoms
    pos = set(a for m in monos if len(m) > 1 for a, e in m if ctx.atom_mask(a) == POS)
    have = set(frozenset(m) for m in monos)
    for p, st in list(cons)[:60]:
        for a in pos:
            q = P.mul(p, P.var(a))
            if all(m == ((a, 1),) or frozenset(m) in have for m in q) and len(q) <= 4:
                cons.append((q, st))
    monos = set()
    for p, _ in cons:
        monos |= set(p)
    monos.discard(())
    for m in monos:
        mm = ctx.mono_mask(m)
        if not mm & NEG:
            cons.append(({m: 1}, not mm & ZER))
        elif not mm & POS:
            cons.append(({m: -1}, not mm & ZER))
    return fm_empty(cons)


def fm_empty(cons, limit=4000):
    cons = [(dict((m, Fraction(v)) for m, v in p.items()), s) for p, s in cons]

    def normal(c):
        p, s = c
        ks = [k for k in p if k]
        if not ks:
            return (frozenset(p.items()), s)
        d = abs(p[min(ks)])
        return (frozenset((k, v / d) for k, v in p.items()), s)
    cur = set(normal(c) for c in cons)
    while True:
        monos = {}
        for p, s in cur:
            for k, v in p:
                if k:
                    a = monos.setdefault(k, [0, 0])
                    a[0 if v > 0 else 1] += 1
        for p, s in cur:
            if not any(k for k, v in p):
                c = dict(p).get((), Fraction(0))
                if c < 0 or (s and c == 0):
                    return True
        if not monos:
            return False
        k = min(monos, key=lambda x: monos[x][0] * monos[x][1])
        pos = []
        neg = []
        rest = set()
        for p, s in cur:
            d = dict(p)
            v = d.get(k)
            if v is None:
                rest.add((p, s))
            elif v > 0:
                pos.append((d, s, v))
            else:
                neg.append((d, s, v))
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for d1, s1, v1 in pos:
            for d2, s2, v2 in neg:
                r = {}
                for m, x in d1.items():
                    if m != k:
                        r[m] = x / v1
                for m, x in d2.items():
                    if m != k:
                        r[m] = r.get(m, 0) + x / -v2
                r = {m: x for m, x in r.items() if x != 0}
                rest.add(normal((r, s1 or s2)))
        cur = rest
