"""Which bytes of an argument array a function touches when the count is far beyond any unrolling: scalar evolution
(LLVM, on the current sources) gives every address as a start, a step and a number of rounds."""
import itertools
import re
import shutil
import subprocess
import tempfile

WIDTH = {'float': 4, 'double': 8, 'i32': 4, 'i64': 8, '<2 x float>': 8, '<2 x double>': 16, '<4 x float>': 16, '<4 x double>': 32, 'ptr': 8}
LOC = r'%[\w.]+'


def _parse(e):
    """the syntax tree of a printed recurrence expression, or None"""
    toks = re.findall(r'<%[\w.]+>|<\w+>|%[\w.]+|,\+,|-?\d+|[{}()*+]|/u|[a-z]\w*|[<>]', e)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else ''

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def flags():
        while re.match(r'<(nuw|nsw|nw)>$', peek()):
            take()

    def expr():
        t = take()
        if t == '{':
            a = [expr()]
            while peek() == ',+,':
                take()
                a.append(expr())
            if take() != '}':
                raise ValueError
            flags()
            loop = take()
            return ('rec', loop[1:-1], a)
        if t == '(':
            if peek() in ('zext', 'sext', 'trunc', 'ptrtoint'):
                op, ty = take(), take()
                x = expr()
                if take() != 'to':
                    raise ValueError
                to = take()
                if take() != ')':
                    raise ValueError
                flags()
                return (op, 64 if ty == 'ptr' else int(ty[1:]), int(to[1:]), x)
            a, op = [expr()], None
            while peek() != ')':
                o = take()
                if op not in (None, o):
                    raise ValueError
                op = o
                a.append(expr())
            take()
            flags()
            return ('op', op or '+', a)
        if re.match(r'-?\d+$', t):
            return ('int', int(t))
        if t in ('true', 'false'):
            return ('int', int(t == 'true'))
        if t[0] == '%':
            return ('name', t)
        raise ValueError
    try:
        return expr()
    except (ValueError, IndexError):
        return None


def _eval(t, at, arg, bits, name):
    """the offset of a parsed address in the given rounds, or None"""
    mask = (1 << bits) - 1
    if t[0] == 'int':
        return t[1] & mask
    if t[0] == 'name':
        v = 0 if t[1] == '%' + arg else name(t[1])
        return None if v is None else v & mask
    if t[0] == 'rec':
        if t[1][1:] not in at:
            return None
        k, x, c = at[t[1][1:]], 0, 1
        for i, p in enumerate(t[2]):
            v = _eval(p, at, arg, bits, name)
            if v is None:
                return None
            x += v * c
            c = c * (k - i) // (i + 1)
        return x & mask
    if t[0] == 'op':
        vs = [_eval(p, at, arg, bits, name) for p in t[2]]
        if None in vs:
            return None
        r = vs[0]
        for v in vs[1:]:
            sg = [(q ^ (1 << (bits - 1))) - (1 << (bits - 1)) for q in (r, v)]
            if t[1] == '+':
                r += v
            elif t[1] == '*':
                r *= v
            elif t[1] == '/u' and v:
                r //= v
            elif t[1] in ('umax', 'umin'):
                r = (max if t[1] == 'umax' else min)(r, v)
            elif t[1] in ('smax', 'smin'):
                r = (max if t[1] == 'smax' else min)(sg) & mask
            else:
                return None
            r &= mask
        return r
    op, src, to, x = t
    v = _eval(x, at, arg, src, name)
    if v is None:
        return None
    if op == 'sext':
        v = (v ^ (1 << (src - 1))) - (1 << (src - 1))
    return v & mask


def _names(t):
    if t[0] == 'name':
        return {t[1]}
    return set().union(*([_names(x) for x in t[2]] if t[0] in ('rec', 'op') else [_names(t[3])] if t[0] not in ('int',) else [set()]))


def _place(e, arg, trips, flow, block):
    """the offsets of an address over %arg: ((first, [(step, loop)])) or ('tree', parsed expression), or a reason"""
    m = re.match(r'\(?(?:(-?\d+) \+ )?%%%s\)?(?:<\w+>)*(?=[\s,]|$)' % arg, e)
    if m:
        return (int(m.group(1) or 0), [])
    depth = 0
    while e[depth:depth + 1] == '{':
        depth += 1
    m = re.match(r'\(?(?:(-?\d+) \+ )?%%%s\)?(?:<\w+>)*((?:,\+,-?\d+\}(?:<\w+>)*<%%[\w.]+>){%d})' % (arg, depth), e[depth:])
    n = 1
    for h in flow.around(block):
        if '%' + h not in trips:
            return 'the number of rounds of %%%s is not known' % h
        n *= trips['%' + h]
    if n > 10 ** 7:
        return 'too many rounds'
    if depth and m:
        steps = [(int(st), loop[1:]) for st, loop in re.findall(r',\+,(-?\d+)\}(?:<\w+>)*<(%[\w.]+)>', m.group(2))]
        if {l for st, l in steps} <= set(flow.around(block)) and len({l for st, l in steps}) == len(steps):
            return (int(m.group(1) or 0), steps)
    t = _parse(e)
    if t and n <= 10 ** 6 and all(flow.value(x, {h: 0 for h in flow.around(block)}, {}) is not None for x in _names(t) - {'%' + arg}):
        return ('tree', (t, arg))
    return 'the recurrence is not known: ' + e[:110]


class Flow:
    """the blocks of one function: loops, and whether a block runs in a given round (True, False, or None: not known)"""

    def __init__(self, body, rec, trips):
        self.blocks, self.order, self.defs = {}, [], {}
        cur = None
        for ln in body.split('\n'):
            m = re.match(r'([\w.]+):', ln)
            if m or cur is None:
                cur = m.group(1) if m else 'entry'
                self.order.append(cur)
                self.blocks[cur] = []
                if m:
                    continue
            if ln.startswith('  '):
                self.blocks[cur].append(ln)
                m = re.match(r'  (%[\w.]+) = ([^!]*)', ln)
                if m:
                    self.defs[m.group(1)] = m.group(2).rstrip(' ,')
        self.rec, self.trips = rec, trips
        self.known = {}
        self.free = False       # conditions on floating point data may go either way
        self.succ, self.cond = {}, {}
        for b, ls in self.blocks.items():
            t = ls[-1] if ls else ''
            self.succ[b] = list(dict.fromkeys(re.findall(r'label %([\w.]+)', ''.join(ls[-6:]) if 'switch' in ''.join(ls) else t)))
            m = re.match(r'  br i1 ([%\w.]+), label %([\w.]+), label %([\w.]+)', t)
            if m and m.group(2) != m.group(3):
                self.cond[b] = m.groups()
        self.pred = {b: [p for p in self.blocks if b in self.succ[p]] for b in self.blocks}
        back = [(p, h) for p in self.blocks for h in self.succ[p] if not self._reaches(self.order[0], p, h)]
        self.loops = {}
        for p, h in back:
            s, todo = self.loops.setdefault(h, {h}), [p]
            while todo:
                x = todo.pop()
                if x not in s:
                    s.add(x)
                    todo += self.pred[x]
        self.back = set(back)

    def _reaches(self, a, b, without):
        if a == without:
            return False
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            for y in self.succ.get(x, []):
                if y not in seen and y != without:
                    seen.add(y)
                    todo.append(y)
        return False

    def around(self, b):
        """headers of the loops around a block, outermost first"""
        return sorted((h for h, s in self.loops.items() if b in s), key=lambda h: -len(self.loops[h]))

    def always(self, b, stay=False):
        """does the block run in every round (`stay`: but perhaps the last) of every loop around it?"""
        hs = self.around(b)
        for i, h in enumerate(hs + [None]):
            start = self.order[0] if i == 0 else hs[i - 1]
            region = None if i == 0 else self.loops[hs[i - 1]]
            target = b if h is None else h
            seen, todo = {start}, [start] if start != target else []
            while todo:
                x = todo.pop()
                if not self.succ[x] and not (self.blocks[x] and 'unreachable' in self.blocks[x][-1]):
                    return False
                for y in self.succ[x]:
                    if stay and region is not None and y not in region:
                        continue
                    if region is not None and (y not in region or y == start):
                        return False
                    if y != target and y not in seen:
                        seen.add(y)
                        todo.append(y)
        return True

    def on_data(self, b):
        """is the branch at the end of the block decided by a floating point comparison?"""
        def data(v, depth=0):
            d = self.defs.get(v, '')
            if d.startswith('fcmp'):
                return True
            if depth < 6 and re.match(r'(and|or|xor|select|phi|freeze)\b.*\bi1\b', d):
                xs = [x for x in re.findall(r'%[\w.]+', re.sub(r', %[\w.]+ \]', ' ]', d)) if x != v]
                return bool(xs) and all(data(x, depth + 1) for x in xs)
            return False
        return b in self.cond and data(self.cond[b][0])

    def always_free(self, b, stay=False):
        """does the block run in every round (`stay`: but perhaps the last) when floating point comparisons favour it?"""
        hs = self.around(b)
        for i, h in enumerate(hs + [None]):
            start = self.order[0] if i == 0 else hs[i - 1]
            region = set(self.blocks) if i == 0 else self.loops[hs[i - 1]]
            target = b if h is None else h
            if start == target:
                continue
            can, todo = {target}, [target]
            while todo:
                for p in self.pred[todo.pop()]:
                    if p in region and p not in can:
                        can.add(p)
                        todo.append(p)
            seen, todo = {start}, [start]
            while todo:
                x = todo.pop()
                ys = [y for y in self.succ[x] if y in can and not (i and y == start)]
                lost = [y for y in self.succ[x] if y not in ys and not (stay and i and y not in region)]
                if not ys or (lost and not self.on_data(x)):
                    return False
                for y in ys:
                    if y != target and y not in seen:
                        seen.add(y)
                        todo.append(y)
        return True

    def value(self, v, at, memo, depth=0):
        """an integer of the given rounds, or None"""
        if re.match(r'-?\d+$', v):
            return int(v)
        if v in ('true', 'false'):
            return int(v == 'true')
        if v in memo:
            return memo[v]
        memo[v] = r = self._value(v, at, memo, depth)
        return r

    def _value(self, v, at, memo, depth):
        d = self.defs.get(v, '')
        e = self.rec.get(v, '')
        m = re.match(r'(\{+)(-?\d+)((?:,\+,-?\d+\}(?:<\w+>)*<%[\w.]+>)+)', e)
        w = re.search(r' to i(\d+)$', d) or re.search(r'\bi(\d+)\b', d)
        bits = int(w.group(1)) if w else 64
        if m and len(m.group(1)) == m.group(3).count('}'):
            x = int(m.group(2))
            for st, loop in re.findall(r',\+,(-?\d+)\}(?:<\w+>)*<%([\w.]+)>', m.group(3)):
                if loop not in at:
                    return None
                x += int(st) * at[loop]
            return ((x + (1 << (bits - 1))) & ((1 << bits) - 1)) - (1 << (bits - 1))
        if depth > 12:
            return None
        m = re.match(r'(zext|sext|trunc)(?: nneg| nuw| nsw)* i(\d+) (%[\w.]+) to i(\d+)', d)
        if m:
            x = self.value(m.group(3), at, memo, depth + 1)
            if x is None:
                return None
            bits, src = int(m.group(4)), int(m.group(2))
            if m.group(1) == 'zext':
                x &= (1 << src) - 1
            if m.group(1) == 'sext' and src == 1:
                x = -(x & 1)
            return x & 1 if bits == 1 else ((x + (1 << (bits - 1))) & ((1 << bits) - 1)) - (1 << (bits - 1))
        m = re.match(r'(icmp \w+|and|or|xor|add|sub|mul|shl|lshr|ashr|urem|udiv|srem|sdiv)(?: nuw| nsw| exact| disjoint)* i(\d+) ([%\w.-]+), ([%\w.-]+)$', d)
        if not m:
            return None
        a, b = (self.value(m.group(k), at, memo, depth + 1) for k in (3, 4))
        op, bits = m.group(1), int(m.group(2))
        mask = (1 << bits) - 1
        if op in ('and', 'or') and bits == 1 and (a is None) != (b is None):
            k = (a if b is None else b) & 1
            return k if k == (op == 'or') else None
        if a is None or b is None:
            return None
        ua, ub = a & mask, b & mask
        if op.startswith('icmp'):
            p = op[5:]
            return int({'eq': ua == ub, 'ne': ua != ub, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[p])
        if op[1:] in ('rem', 'div') and not ub:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if op in ('srem', 'sdiv') else 0
        x = {'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'shl': lambda: ua << min(ub, 64), 'lshr': lambda: ua >> min(ub, 64),
             'ashr': lambda: a >> min(ub, 64), 'urem': lambda: ua % ub, 'udiv': lambda: ua // ub, 'sdiv': lambda: q, 'srem': lambda: a - b * q}[op]()
        return x & 1 if bits == 1 else ((x + (1 << (bits - 1))) & mask) - (1 << (bits - 1))

    def runs(self, b, at):
        """does the block run when the loops around it are in the given rounds?"""
        hs = self.around(b)
        memo = {}
        start, region = self.order[0], set(self.blocks)
        out = True
        for i, h in enumerate(hs + [None]):
            target = b if h is None else h
            if i:
                start, region = hs[i - 1], self.loops[hs[i - 1]]
            out = self._and(out, self._within(start, region, target, at, memo))
        return out

    @staticmethod
    def _and(a, b):
        return False if a is False or b is False else (None if a is None or b is None else True)

    def _within(self, start, region, target, at, memo):
        if start == target:
            return True
        state = {start: True}

        def reach(x, trail):
            if x in state:
                return state[x]
            if x in trail:
                return None
            r = False
            for p in self.pred[x]:
                if (p, x) in self.back or p not in region:
                    continue
                inner = [h for h in self.around(p) if x not in self.loops[h] and h in region and h != start]
                if inner:        # left through an exit of a loop that has ended
                    h = inner[0]
                    exits = {(q, y) for q in self.loops[h] for y in self.succ[q] if y not in self.loops[h]}
                    k = reach(h, trail | {x})
                    if self.free:
                        exits = {(q, y) for q, y in exits if not self.on_data(q)} or exits
                    k = k if len(exits) == 1 and '%' + h in self.trips else self._and(k, None)
                else:
                    k = reach(p, trail | {x})
                    if k is not False and p in self.cond:
                        c, t, f = self.cond[p]
                        v = self.value(c, at, memo)
                        if not (self.free and self.on_data(p)):
                            k = self._and(k, None if v is None else bool(v & 1) == (x == t))
                    elif k is not False and len(self.succ[p]) > 1:
                        k = self._and(k, None)
                r = True if r is True or k is True else (None if r is None or k is None else False)
            state[x] = r
            return r
        return reach(target, frozenset())


def compiled(lines, inc, clang, opt):
    """the recurrences and the bodies of the functions of a source"""
    d = tempfile.mkdtemp(prefix='mlv-scev-')
    try:
        c, ll = d + '/a.cpp', d + '/a.ll'
        open(c, 'w').write('\n'.join(lines) + '\n')
        r = subprocess.run([clang, '-std=c++11', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-math-errno', '-fno-exceptions', '-fno-builtin', '-w', '-DNDEBUG',
                            '-fno-access-control', '-mllvm', '-inline-threshold=100000', '-fno-discard-value-names', '-I' + inc, '-S', '-emit-llvm', c, '-o', ll], capture_output=True, text=True, cwd=d)
        if r.returncode:
            return None
        sc = subprocess.run([opt, '-disable-output', '-passes=print<scalar-evolution>', ll], capture_output=True, text=True).stderr
        text = open(ll).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    parts = dict(re.findall(r"Analysis' for function '(\w+)':\n(.*?)(?=Printing analysis|\Z)", sc, re.S))
    bodies = dict(re.findall(r'^define [^\n]*@(\w+)\(.*?\{\n(.*?)^\}', text, re.S | re.M))
    return parts, bodies


def accesses(lines, names, arg, inc, clang, opt):
    """{function: {'store': [(first, step, rounds, width)], 'load': [...], 'other': [reasons], 'foreign': [reasons]}}"""
    got = compiled(lines, inc, clang, opt)
    if got is None:
        return None
    parts, bodies = got
    out = {}
    for nm in names:
        body, part = bodies.get(nm, ''), parts.get(nm, '')
        rec = dict(re.findall(r'^  (%[\w.]+) = [^\n]*\n  -->  ([^\n]*)', part, re.M))
        trips = {m.group(1): int(m.group(2)) + 1 for m in re.finditer(r'^Loop (%[\w.]+): backedge-taken count is (?:i64 )?(\d+)$', part, re.M)}
        local = set(re.findall(r'(%[\w.]+) = alloca', body))
        a = {'store': [], 'load': [], 'other': [], 'foreign': [], 'returns': bool(re.search(r'^  ret ', body, re.M)) or not body}
        flow = Flow(body, rec, trips)
        marks = [(0, flow.order[0])] + [(m.start(), m.group(1)) for m in re.finditer(r'^([\w.]+):', body, re.M)]
        acc = [('store', m.group(2), WIDTH.get(m.group(1)), m.start()) for m in re.finditer(r'^  store (float|double|i\d+|<[^>]*>|ptr) [^\n]*?, ptr (%[\w.]+)', body, re.M)]
        acc += [('load', m.group(2), WIDTH.get(m.group(1)), m.start()) for m in re.finditer(r'^  %[\w.]+ = load (float|double|i\d+|<[^>]*>|ptr), ptr (%[\w.]+)', body, re.M)]
        for m in re.finditer(r'@llvm\.mem(?:cpy|move)[\w.]*\(ptr[^%]*(%[\w.]+), ptr[^%@]*([%@][\w.$]+), i64 (?:noundef )?(\d+)', body):
            acc += [('store', m.group(1), int(m.group(3)), m.start()), ('load', m.group(2), int(m.group(3)), m.start())]
        known = len(re.findall(r'@llvm\.mem(?:cpy|move)', body))
        for k, n in (('store', body.count('  store ')), ('load', len(re.findall(r' = load ', body)))):
            if n + known != sum(x[0] == k for x in acc):
                a['other'].append('a %s of an unknown form' % k)
        if re.search(r'@llvm\.memset', body):
            a['other'].append('a store of an unknown form')
        for m in re.finditer(r'call [^\n]*?@([\w.$]+)\(([^\n]*)', body):
            if not m.group(1).startswith('llvm.') and re.search(LOC, m.group(2)) and 'ptr' in m.group(2):
                a['other'].append('a call of ' + m.group(1))
        for k, ptr, wd, pos in acc:
            e = '%' + arg if ptr == '%' + arg else rec.get(ptr, ptr)
            if '%' + arg not in re.findall(LOC, e):
                ids = set(re.findall(LOC, e)) | {ptr}
                if not ids & local:
                    a['foreign'].append((k, '%s: %s' % (ptr, e[:100])))
                continue
            block = [b for o, b in marks if o <= pos][-1]
            p = _place(e, arg, trips, flow, block) if wd else 'of an unknown width'
            if isinstance(p, str):
                a['other'].append('%s through %s: %s' % (k, ptr, p))
            else:
                a[k].append(p + (wd, flow, block))
        out[nm] = a
    return out


BUDGET = [3000000]       # rounds evaluated one by one, per process


def _product(ns):
    r = 1
    for n in ns:
        r *= n
    return r


def touched(acc, word):
    """for each access: (the loop it is in, the offsets it touches for certain, those it may touch or None for unknown)"""
    out = []
    for first, steps, wd, flow, block in acc:
        hs = flow.around(block)
        spans = [range(flow.trips['%' + h]) for h in hs if '%' + h in flow.trips]
        hit, guess = set(), set()
        always = flow.always_free if flow.free else flow.always
        number = {h: len(r) for h, r in zip(hs, spans)}

        def linear(n):
            at = {first}
            for st, k in sorted(((st, n[l]) for st, l in steps), key=lambda x: x[1]):
                if st:
                    at = (set(range(min(at), min(at) + st * k, st)) if len(at) == 1 else {x + st * j for x in at for j in range(k)}) if k else set()
            return at

        def rounds(every, sure):
            known = flow.known.setdefault(block, {})
            for ks in every:
                at = dict(zip(hs, ks))
                if sure:
                    r = True
                elif ks in known:
                    r = known[ks]
                else:
                    r = known[ks] = flow.runs(block, at)
                if r is False:
                    continue
                if first == 'tree':
                    memo = {}
                    x = _eval(steps[0], at, steps[1], 64, lambda v: flow.value(v, at, memo))
                    if x is None:
                        r, x = None, -1
                    x = (x ^ (1 << 63)) - (1 << 63)
                else:
                    x = first + sum(st * at[l] for st, l in steps)
                (hit if r else guess).add(x)

        total = _product(len(x) for x in spans)
        if first != 'tree' and always(block) and len(spans) == len(hs):
            hit = linear(number)
        elif len(spans) < len(hs):
            guess = None
        elif first != 'tree' and len(hs) == 1 and always(block, True):      # a loop left in the middle: only the last round needs a look
            n = number[hs[0]]
            hit = linear({hs[0]: n - 1})
            rounds([(n - 1,)], False)
        elif first != 'tree' and not flow.free and flow.always_free(block, True):
            guess = linear(number)          # only floating point data decides
        elif len(flow.known.get(block, ())) < total > BUDGET[0] or total > (200000 if len(hs) == 1 else 5000 if flow.free else 10 ** 6):
            guess = None
        else:
            BUDGET[0] -= total if len(flow.known.get(block, ())) < total else 0
            rounds(itertools.product(*spans), always(block))
        grow = lambda s: s if wd == word else {x + o for x in s for o in range(0, wd, word)}
        out.append((hs[0] if hs else None, grow(hit), None if guess is None else grow(guess)))
    return out


def covered(acc, word):
    """the word offsets an access list touches: (those it touches for certain, those it may touch, is that all?)"""
    must, may, all_ = set(), set(), True
    for loop, hit, guess in touched(acc, word):
        must |= hit
        if guess is None:
            all_ = False
        else:
            may |= guess
    return must, may, all_


def passes(acc, word, want):
    """offsets left out of a pass that takes all the others: (offset or None)"""
    by, free = {}, set()
    for loop, hit, guess in touched(acc, word):
        if guess is None:
            return None
        if loop is None:
            free |= hit
        else:
            by.setdefault(loop, set()).update(hit | guess)
    groups = {}
    for x, comp in want.items():
        groups.setdefault(comp, set()).add(x)
    for comp, xs in sorted(groups.items()):
        part = [s & xs for s in by.values() if s & xs and not xs <= s | free]
        low = xs - free - set().union(*part)
        if part and low:
            return min(low)
    return None


ACCESS = re.compile(r'^  (?:(store) (float|double|i\d+|<[^>]*>|ptr) [^\n]*?|%[\w.]+ = (load) (float|double|i\d+|<[^>]*>|ptr)), ptr ([%@][\w.$]+)', re.M)


def objects(lines, forms, inc, clang, opt):
    """Per function {object: size} of `forms` (arguments) and its own arrays (stack, heap of a known size, globals): the
    accesses outside their object, for each argument the bytes stored when no computed number ends a loop early, and of
    the own arrays what is read without a store ('raw') or computed without a use ('idle')."""
    got = compiled(lines, inc, clang, opt)
    if got is None:
        return None
    parts, bodies = got
    out = {}
    for nm, sizes in forms:
        body, part = bodies.get(nm, ''), parts.get(nm, '')
        rec = dict(re.findall(r'^  (%[\w.]+) = [^\n]*\n  -->  ([^\n]*)', part, re.M))
        trips = {m.group(1): int(m.group(2)) + 1 for m in re.finditer(r'^Loop (%[\w.]+): (?:constant max )?backedge-taken count is (?:i\d+ )?(\d+)$', part, re.M)}
        flow = Flow(body, rec, trips)
        flow.free = True
        size = {'%' + k: v for k, v in sizes.items()}
        own = {}
        for m in re.finditer(r'^  (%[\w.]+) = alloca \[(\d+) x (float|double|i\d+)\]', body, re.M):
            own[m.group(1)] = int(m.group(2)) * WIDTH.get(m.group(3), int(m.group(3)[1:] or 8) // 8 if m.group(3)[0] == 'i' else 8)
        for m in re.finditer(r'^  (%[\w.]+) = [^\n]*call [^\n]*@(?:_Znam|_Znwm|malloc)\(i64 (?:noundef )?(\d+)\)', body, re.M):
            own[m.group(1)] = int(m.group(2))
        for m in re.finditer(r'^  (%[\w.]+) = [^\n]*call [^\n]*@calloc\(i64 (?:noundef )?(\d+), i64 (?:noundef )?(\d+)\)', body, re.M):
            own[m.group(1)] = int(m.group(2)) * int(m.group(3))
        size.update(own)
        marks = [(0, flow.order[0])] + [(m.start(), m.group(1)) for m in re.finditer(r'^([\w.]+):', body, re.M)]
        res = {'out': [], 'raw': [], 'idle': [], 'seen': 0, 'returns': bool(re.search(r'^  ret ', body, re.M)) or not body}
        sets = {'store': {k: set() for k in size}, 'load': {k: set() for k in size}}
        computed = {k: set() for k in size}
        for m in ACCESS.finditer(body):
            kind, ty, ptr = m.group(1) or m.group(3), m.group(2) or m.group(4), m.group(5)
            e = ptr if ptr in size else rec.get(ptr, ptr)
            bases = [x for x in dict.fromkeys(re.findall(LOC, re.sub(r'<%[\w.]+>', '', e.split('  ')[0].split(' U: ')[0]))) if x in size]
            block = [b for o, b in marks if o <= m.start()][-1]
            wd = WIDTH.get(ty)
            p = _place(e, bases[0][1:], trips, flow, block) if len(bases) == 1 and wd else 'unknown'
            if isinstance(p, str):
                for k in sets[kind]:
                    if not bases and not (k in own and e.split(' ')[0] in ('%' + x for x in sizes)) or k in bases:
                        sets[kind][k] = None
                continue
            res['seen'] += 1
            (loop, hit, guess), = touched([p + (wd, flow, block)], 4)
            b = bases[0]
            if guess is None or guess or not hit:
                sets[kind][b] = None
            if not hit:
                continue
            bad = [x for x in (min(hit), max(hit)) if not 0 <= x < size[b]]
            if bad:
                res['out'].append((b, bad[0], size[b], kind, block))
            if sets[kind][b] is not None:
                sets[kind][b] |= hit
            if kind == 'store' and re.match(r'  store \S+ %', m.group(0)):
                computed[b] |= hit
        for m in re.finditer(r'call [^\n]*?@([\w.$]+)\(([^\n]*)', body):
            if re.match(r'llvm\.(?!mem)|_Zd[al]|_Zn[aw]|free|malloc|calloc', m.group(1)) or 'ptr' not in m.group(2):
                continue        # anything else may read and write what it can reach
            for k in size:
                for kind in sets:
                    sets[kind][k] = None
        res['stored'] = {k: sets['store']['%' + k] for k in sizes}
        for k in own:
            st, ld = sets['store'][k], sets['load'][k]
            zero = re.search(r'  %s = [^\n]*@calloc' % re.escape(k), body)
            if st is not None and ld and min(ld) >= 0 and max(ld) < own[k]:
                if not zero and ld - st:
                    res['raw'].append((k, min(ld - st), own[k]))
            if ld is not None and len(computed[k] - ld) > 2000 and max(computed[k]) < own[k]:
                res['idle'].append((k, min(computed[k] - ld), own[k]))
        out[nm] = res
    return out


def long_systems(unit, systems, title):
    """rule: with many unknowns the solver stays inside its arrays and stores every unknown.
    systems: [(label, inst, 'C++ parameter list', 'call', {parameter: bytes}, {output parameter: bytes})]"""
    from unit import CLANG, OPT, INC
    src, forms = ['#include "mathlib.h"', 'using namespace mathlib;'], []
    for i, (label, inst, params, call, sizes, outs) in enumerate(systems):
        src.append('extern "C" bool f%d(%s) { return %s; }' % (i, params, call))
        forms.append(('f%d' % i, sizes))
    acc = objects(src, forms, INC, CLANG, OPT)
    und = unit.rule_undecided = getattr(unit, 'rule_undecided', [])
    if acc is None:
        und.append('%s: the solvers do not compile' % title)
        return 1, [], title
    viol, seen = [], 0
    for i, (label, inst, params, call, sizes, outs) in enumerate(systems):
        a = acc['f%d' % i]
        seen += a['seen']

        def bad(text):
            viol.append({'key': 'long_systems/' + label, 'inst': inst, 'where': label, 'text': 'VIOLATED the solver keeps to its arrays and stores every unknown: %s<%s>: %s' % (label, inst, text)})
        if not a['returns']:
            bad('a loop has no exit that can be reached')
            continue
        for b, off, size, kind, block in a['out'][:1]:
            bad('a %s at byte %d of %s, which has %d bytes' % (kind, off, 'the array ' + b[1:] if b[1:] in sizes else 'a work array', size))
        for b, off, size in a['raw'][:1]:
            bad('byte %d of a work array of %d bytes is read and never stored' % (off, size))
        for b, off, size in a['idle'][:1]:
            bad('what is computed for byte %d (and others) of a work array of %d bytes is never used' % (off, size))
        for k, n in outs.items():
            st = a['stored'][k]
            if st is None:
                continue        # stored through an index that is computed from data: decided at small sizes only
            miss = set(range(0, n, 4)) - st
            if miss and not a['out']:
                bad('byte %d of the result %s is not stored' % (min(miss), k))
    return len(systems), viol, 'address recurrences of %d accesses of %d solver forms with many unknowns' % (seen, len(systems))


def long_points(unit, classes, title):
    """rule: building a shape from 70001 points reads every component of every point and nothing else"""
    from unit import CLANG, OPT, INC
    COUNT = 70001
    src, forms = ['#include "mathlib.h"'], []
    for cl, dim in classes:
        for real, w in (('float', 4), ('double', 8)):
            for strided in (False, True):
                for form in ('s.set', 's = %s<%s>::from' % (cl, real)):
                    nm = 'f%d' % len(forms)
                    step = dim * w + (2 * w if strided else 0)
                    src.append('extern "C" void %s(mathlib::%s<%s>& s, const mathlib::Vec%d<%s>* p) { using namespace mathlib; %s(%d, p%s); }' % (
                        nm, cl, real, dim, real, form, COUNT, ', %d' % step if strided else ''))
                    forms.append((nm, '%s<%s>::%s(count, points%s)' % (cl, real, 'set' if form == 's.set' else 'from', ', stride' if strided else ''), dim, w, step))
    acc = accesses(src, [f[0] for f in forms], 'p', INC, CLANG, OPT)
    und = unit.rule_undecided = getattr(unit, 'rule_undecided', [])
    if acc is None:
        und.append('%s: the array forms do not compile' % title)
        return 1, [], title
    viol, n = [], 0
    for nm, label, dim, w, step in forms:
        a = acc[nm]
        if not a['returns']:
            n += 1
            viol.append({'key': 'long_points/' + label, 'inst': 'float' if w == 4 else 'double', 'where': label,
                         'text': 'VIOLATED all of %d points are read, and nothing else: %s: the loop over the points has no exit that can be reached' % (COUNT, label)})
            continue
        got, may, whole = covered(a['load'], w)
        comps = {i * step + c * w: c for i in range(COUNT) for c in range(dim)}
        want = set(comps)
        miss, more = want - got - may, got - want
        if not miss and not more and not (want | may) <= (want & got):
            und.append('long_points %s: a read depends on a condition the recurrences do not settle' % label)
            continue
        hidden = a['other'] + [t for k, t in a['foreign'] if k == 'load'] + ['the rounds of a read are not known'] * (not whole)
        if miss and (hidden or not a['load']):
            und.append('long_points %s: %s' % (label, (hidden + ['no load'])[0]))
            continue
        if hidden and not miss and not more:
            und.append('long_points %s: %s' % (label, hidden[0])) if not whole else None
        n += 1
        short = None if hidden or miss or more else passes(a['load'], w, comps)
        if miss or more or short is not None:
            x = min(miss) if miss else short if short is not None else min(more)
            viol.append({'key': 'long_points/' + label, 'inst': 'float' if w == 4 else 'double', 'where': label,
                         'text': 'VIOLATED all of %d points are read, and nothing else: %s: %s' % (COUNT, label,
                             'number %d of point %d is not read' % (x % step // w, x // step) if miss else
                             'number %d of point %d is left out of a pass over the points' % (x % step // w, x // step) if short is not None else 'byte %d is read' % x)})
    return n or 1, viol, 'read recurrences of %d point array forms at count %d' % (n, COUNT)
