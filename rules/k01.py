"""K01 (tables): the expander, the compiler and the evaluator know the same
primitives with the same numbers of arguments, and the call the compiler writes
for each compiles against the runtime's headers."""
import tempfile
from rules.coralang import S, Pair, read_file, to_list
from rules.coraforms import result
from rules import k01gen


def run(repo, tier, results):
    R = result()
    toc = k01gen.table(repo + '/lib/toc.cora', '*builtin-prims*', 'def')
    ini = k01gen.table(repo + '/init.cora', 'cora/init#*builtin-prims*', 'set')
    if not toc or not ini:
        R['broken'].append('the tables of primitives were not found')
        R['counts'] = {}
        return R

    def viol(key, where, msg):
        R['violations'].append({'rule': 'K01', 'key': key, 'where': where, 'msg': msg})
    for where, t in (('lib/toc.cora', toc), ('init.cora', ini)):
        for n in {p[0] for p in t}:
            if len([p for p in t if p[0] == n]) > 1:
                viol('%s is listed twice in %s' % (n, where), where, 'the primitive %s is listed twice' % n)
    a, b = {p[0]: p for p in toc}, {p[0]: p for p in ini}
    for n in sorted(set(a) | set(b)):
        if n not in b:
            viol(n + ' is not known to the expander', 'init.cora', 'the compiler treats %s as a primitive, the expander as a name' % n)
        elif n not in a:
            viol(n + ' is not known to the compiler', 'lib/toc.cora', 'the expander treats %s as a primitive, the compiler does not' % n)
        elif a[n] != b[n]:
            viol(n + ' differs', 'lib/toc.cora', 'the primitive %s is %s for the compiler and %s for the expander' % (n, a[n][1:], b[n][1:]))
    # the evaluator: (set 'car (car)), or a function of the same number of arguments
    ev = {}
    for top in read_file(repo + '/lib/eval.cora'):
        for p in k01gen.walk(top):
            l = to_list(p) if p.car is S('set') else []
            if len(l) == 3 and isinstance(l[1], Pair) and l[1].car is k01gen.QUOTE:
                ev[k01gen.unquote(l[1]).name] = l[2]
    nev = 0
    for n, (_, args, _) in sorted(a.items()):
        if n not in ev:
            viol(n + ' is not available to the evaluator', 'lib/eval.cora', 'interpreted code cannot use the primitive ' + n)
            continue
        nev += 1
        e = to_list(ev[n]) if isinstance(ev[n], Pair) else []
        if args and e and e[0] is S(n) and len(e) == 1:
            continue
        if len(e) == 3 and e[0] is S('lambda'):
            ps = to_list(e[1])
            body = to_list(e[2]) if isinstance(e[2], Pair) else []
            if body and body[0] is S(n) and body[1:] == ps and len(ps) == args:
                continue
        viol(n + ' is something else for the evaluator', 'lib/eval.cora',
             'the evaluator binds %s to something that is not the primitive waiting for its %d arguments' % (n, args))
    op = k01gen.opening(repo + '/lib/toc.cora')
    ncomp = 0
    with tempfile.TemporaryDirectory(prefix='k01.') as d:
        for p in toc:
            ok, log = k01gen.compiles(repo, k01gen.witness(p, op), d)
            ncomp += 1
            if not ok:
                err = [l for l in log.split('\n') if 'error:' in l][:1]
                viol('the call of %s does not compile' % p[0], 'lib/toc.cora',
                     '%s: %s' % (k01gen.call(p, op, ['...'] * p[1]), (err or [''])[0].split('error:')[-1].strip()))
    R['counts'] = {'primitives': len(a), 'known to the evaluator': nev, 'calls compiled': ncomp}
    if len(a) < 12:
        R['broken'].append('only %d primitives found' % len(a))
    return R
