"""Turn obligation results into a report."""
from unit import *

ASSUME = [
    'arithmetic is interpreted over the reals: rounding, overflow, NaN and signed zero are outside the claim',
    'clang-18 lowers the instantiated sources faithfully and the LLVM 18 passes used (inlining, SROA, GVN, CFG simplification, full unrolling) preserve meaning; -DNDEBUG as in the shipped build',
    'distinct reference parameters do not overlap unless the obligation says so (aliasing is property P24)',
    'the libm functions behave as the real functions they name',
]


def run(unit, tier, work, a, technique, extra_rules=(), min_obs=1):
    res = run_unit(unit, work, a.j, a.only)
    return finish(unit, res, technique, extra_rules, a)


def finish(unit, res, technique, extra_rules=(), a=None, what=None):
    viol, und, err = [], [], []
    fns = set()
    nclaims = ncells = insts = dec = 0
    names = set()
    per = {}
    for r in res:
        if a is not None and a.v:
            print('   %-40s %s %s cells=%s claims=%s viol=%d t=%.2f %s' % (r['name'], r['sfx'], r['status'], r.get('cells'), r.get('claims'), len(r.get('viol', [])), r['t'], r.get('why', '')))
        if r['status'] == 'undecided':
            und.append('%s<%s>: %s' % (r['name'], 'float' if r['sfx'] == 'f' else 'double', r['why']))
            continue
        if r['status'] == 'error':
            err.append('%s: %s' % (r['name'], r['why']))
            continue
        dec += 1
        names.add(r['name'])
        nclaims += r['claims']
        ncells += r['cells']
        insts += r['insts']
        fns |= set(map(tuple, r['fns']))
        for v in r['viol']:
            key = '%s/%s' % (r['name'], v['claim'])
            inst = 'float' if r['sfx'] == 'f' else 'double'
            text = 'VIOLATED %s [%s<%s>] at %s: got %s, expected %s, in region {%s}' % (
                v['claim'], r['name'], inst, v['where'], v.get('got'), v.get('expected', 'the claim to hold'), '; '.join(v['region']) or 'all inputs')
            viol.append({'key': key, 'inst': inst, 'where': v['where'], 'text': text})
    und += ['%s: does not compile' % x for x in unit.left_out]
    rules = {}
    for rule in extra_rules:
        try:
            n, vs, note = rule(unit)
        except (Unsupported, AnalysisError) as e:
            und.append('rule %s: %s' % (rule.__name__, e))
            continue
        und += getattr(unit, 'rule_undecided', [])
        unit.rule_undecided = []
        rules[rule.__name__] = {'instances': n, 'note': note}
        if n == 0:
            err.append('rule %s matched no instance' % rule.__name__)
        viol.extend(vs)
    if und and len(und) >= max(1, len(res)):
        err.append('%d of %d obligations undecided' % (len(und), len(res)))
    if not res and not extra_rules:
        err.append('no obligations')
    cov = {
        'explanation': what or 'Each obligation takes the gated value graph of one API entry point (fully inlined SSA, joins as gating nodes, memory as cells), normalises every output cell to a quotient of polynomials over the input cells per region of a sign partition of the gating conditions, and compares it with the specified normal form; no input is sampled and nothing is executed.',
        'obligations': len(res), 'decided': dec, 'undecided': und, 'cell_claims': nclaims, 'partition_regions': ncells,
        'ir_instructions': insts, 'functions_analysed': sorted('%s:%s' % f for f in fns), 'entry_points': sorted(names),
        'rules': rules,
    }
    return {'violations': viol, 'errors': err, 'undecided': und, 'coverage': cov, 'assumptions': ASSUME,
            'summary': '%d obligations (%d entry points, %d cell claims, %d regions, %d functions of the library), %d violated' % (
                len(res), len(names), nclaims, ncells, len(fns), len(viol))}
