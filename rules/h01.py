"""H01: everything written into generated HTML is a literal of the writer, a
tag or attribute name, a number, or text that went through the escaping
function; and that function replaces each special character by its entity."""
import os
from rules.coralang import S, Sym, Pair, NIL, to_list, show
from rules.coraforms import program, result
from rules.caexec import Exec, Clo, PrimV, TOP, GiveUp, concrete, kind

NEEDS = ['NAMES']
PKG = 'cora/lib/sxml'
ENT = {34: '&quot;', 38: '&amp;', 39: '&apos;', 60: '&lt;', 62: '&gt;'}
ALT = {39: {'&apos;', '&#39;', '&#x27;'}, 34: {'&quot;', '&#34;'}, 38: {'&amp;'}, 60: {'&lt;'}, 62: {'&gt;'}}
TEXT = ('any', 'text')
LEN = ('len',)
# tests of position 0 against the length that hold exactly when there is a character
ENDS = {('app', '<', 0, LEN), ('app', '>', LEN, 0), ('app', '=', 0, LEN), ('app', '=', LEN, 0),
        ('app', 'not', ('app', '=', 0, LEN)), ('app', 'not', ('app', '<', 0, LEN)),
        ('app', 'not', ('app', '=', LEN, 0)), ('app', 'not', ('app', '>', LEN, 0))}


def run(repo, tier, results):
    R = result()
    P = program(repo, results)
    prims = {to_list(x)[0].name: to_list(x)[1] for x in to_list(P.w.g[S('cora/init#*builtin-prims*')])}
    pkg = P.packages.get(PKG)
    if pkg is None or not pkg.path:
        R['broken'].append('package %s not found' % PKG)
        return R
    rel = os.path.relpath(pkg.path, repo)
    lines = {}
    for f, line in pkg.forms:
        if isinstance(f, Pair) and f.car is S('set'):
            lines[f.cdr.car.cdr.car.name] = line

    def viol(key, fn, msg):
        if not any(v['key'] == key for v in R['violations']):
            R['violations'].append({'rule': 'H01', 'key': key, 'where': '%s:%d' % (rel, lines.get(fn, 0)), 'msg': msg})

    def fresh():
        A = Exec(P, prims)
        return A

    fns = [n for n in fresh().defs if n.startswith(PKG + '#')]
    MEMCPY = 'cora/lib/string#memcpy'
    # 1. the functions that write bytes into the output: memcpy(dst, at, src, from, n)
    #    writers: functions whose parameter reaches memcpy's source
    writers = {}
    for n in fns:
        A = fresh()
        v = A.glob(n)
        if not isinstance(v, Clo):
            continue
        A.sinks = {MEMCPY}
        A.maxdepth = 1
        # a parameter is a data parameter when it appears in memcpy's source itself
        args = tuple(('any', 'param %d' % i) for i in range(len(v.params)))
        body_calls = direct_calls(v.body)
        if MEMCPY not in body_calls:
            continue
        try:
            A.call(v, args)
        except GiveUp:
            continue
        for name, a in A.events:
            for i, p in enumerate(args):
                if a[2] == p:
                    writers.setdefault(n, set()).add(i)
    if not writers:
        R['broken'].append('no function that writes into the output found')
        return R
    # functions that hand a parameter to a writer unchanged are writers too,
    # unless they are the writers of text
    R['samples']['writers'] = ['%s: parameter %s' % (n, sorted(i)) for n, i in writers.items()]

    # 2. the escaping function: given text, it writes only pieces of the text that are no special character
    reads = {'cora/lib/string#byte-ref', 'cora/lib/string#string-index'}
    cand = []
    helpers = set()
    good = {}
    nchar = 0
    base = fresh()
    todo = [n for n in fns if n not in writers and isinstance(base.glob(n), Clo)
            and direct_calls(base.glob(n).body) & reads]
    done = set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        v = base.glob(n)
        for ti in range(len(v.params)):
            args = tuple(TEXT if i == ti else ('any', 'param %d' % i) for i in range(len(v.params)))
            res = {}
            bad = None
            for c in range(256):
                A = fresh()
                A.sinks = set(writers)
                A.maxdepth = 1
                A.again = []
                A.conds = []
                A.recur = lambda f, a, A=A: A.again.append((f, a))
                idx = []

                def byte(a, c=c, idx=idx):
                    if a[0] == TEXT:
                        idx.append(a[1])
                        return c
                    return None

                def ch(a, idx=idx):
                    if a[0] == TEXT:
                        idx.append(a[1])
                        return ('char', a[1])
                    return None
                A.models['cora/lib/string#byte-ref'] = byte
                A.models['cora/lib/string#string-index'] = ch
                A.models['cora/lib/string#string-slice'] = lambda a: ('piece',) if a[0] == TEXT else None
                for ln in ('cora/lib/string#string-length', 'cora/init#bytes-length', 'bytes-length'):
                    A.models[ln] = lambda a: ('len',) if a[0] == TEXT else None
                try:
                    A.call(v, args)
                except GiveUp as e:
                    bad = str(e)
                    break
                res[c] = (list(A.events), A.again, idx, A.conds)
                if not idx or isinstance(idx[0], tuple):
                    break
            if bad or not any(r[2] for r in res.values()):
                continue
            if any(r[2] and isinstance(r[2][0], tuple) for r in res.values()):
                # the position is a parameter: the step of a loop, judged with its caller
                helpers.add(n)
                for m in fns:
                    w = base.glob(m)
                    if m != n and m not in writers and isinstance(w, Clo) and n in direct_calls(w.body):
                        todo.append(m)
                break
            if not any(r[0] for r in res.values()):
                continue
            good[n] = ti
            for c in range(256):
                nchar += 1
                ev, again, idx, conds = res[c]
                outs = [a[i] for name, a in ev for i in writers[name]]
                want = ENT.get(c)
                if len(set(map(str, idx))) > 1:
                    viol('%s: positions' % n, n, 'one step looks at different positions of the text: %s' % idx)
                if want is not None:
                    if len(outs) != 1 or outs[0] not in ALT[c]:
                        viol('%s: character %d' % (n, c), n, 'the character %r is written as %s, not as %s' % (
                            chr(c), ', '.join(map(txt, outs)) or 'nothing', want))
                else:
                    if len(outs) != 1 or not (isinstance(outs[0], tuple) and outs[0][0] == 'char'
                                              or isinstance(outs[0], str) and outs[0] == chr(c)):
                        viol('%s: character %d' % (n, c), n, 'the character %r is written as %s' % (
                            chr(c), ', '.join(map(txt, outs)) or 'nothing'))
                    elif isinstance(outs[0], tuple) and idx and outs[0][1] != idx[0]:
                        viol('%s: wrong position' % n, n, 'the character at %s is tested, the one at %s written' % (
                            idx[0], outs[0][1]))
                # goes on with the next position
                if not any(any(x == 1 for x in a if type(x) is int) for f, a in again):
                    viol('%s: does not continue' % n, n,
                         'after the first character the loop does not continue with the next one')
                if idx and idx[0] != 0:
                    viol('%s: start' % n, n, 'the text is not read from its first character')
                # and stops at the end of the text, not before
                for cd in conds:
                    if mentions(cd, 'len') and cd not in ENDS:
                        viol('%s: end' % n, n, 'the loop does not run to the end of the text: its test is %s' % (cd,))
            break
    if not good:
        R['broken'].append('no function that escapes text found')
        return R
    R['samples']['escaping functions'] = ['%s: parameter %d' % (n, i) for n, i in good.items()]

    # 3. from the exported functions: what reaches the writers
    nsink = 0
    for e in pkg.exports:
        n = PKG + '#' + e
        A = fresh()
        v = A.glob(n)
        if not isinstance(v, Clo):
            R['broken'].append('exported %s is not a function' % n)
            continue
        A.sinks = set(writers) | set(good)
        A.maxdepth = 2
        cur = []

        class Trace(list):
            def append(self, ev):
                list.append(self, (ev, tuple(names(A))))
        A.events = Trace()
        try:
            A.call(v, tuple(('any', 'document') for _ in v.params))
        except GiveUp as g:
            R['broken'].append('%s: %s' % (n, g))
            continue
        esc = 0
        for (name, a), where in A.events:
            nsink += 1
            if name in good:
                esc += 1
                continue
            for i in writers[name]:
                x = a[i]
                if isinstance(x, str) or (isinstance(x, tuple) and x[0] == 'app' and
                                          x[1].split('#')[-1] in ('symbol->string', 'number->string')):
                    continue
                fn = next((w for w in reversed(where) if w.startswith(PKG)), n)
                viol('%s writes %s' % (fn, txt(x)), fn,
                     '%s writes %s into the output without escaping it' % (fn, txt(x)))
        if esc < 2:
            viol('%s: escapes' % n, n, 'text and attribute values do not both go through %s' % ', '.join(good))
    R['counts'] = {'writers': len(writers), 'characters decided': nchar, 'writes followed': nsink,
                   'escaping functions': len(good)}
    if nsink < 8:
        R['broken'].append('only %d writes reached' % nsink)
    return R


def names(A):
    rev = getattr(A, '_rev', None)
    if rev is None:
        rev = A._rev = {}
        for n, d in A.defs.items():
            for x in d:
                if isinstance(x, Pair) and x.car is S('lambda'):
                    rev[id(to_list(x.cdr.cdr)[0])] = n
    return [rev.get(id(b), '') for b in A.stack]


def txt(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, tuple):
        return x[0] if len(x) == 1 else ('(%s ...)' % x[1] if x[0] == 'app' else 'the character' if x[0] == 'char' else 'unknown text')
    return show(x)


def direct_calls(x, out=None):
    out = set() if out is None else out
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Pair):
            if y.car is S('quote'):
                continue
            while isinstance(y, Pair):
                st.append(y.car)
                y = y.cdr
        elif isinstance(y, Sym):
            out.add(y.name)
    return out


def calls_any(A, x, names):
    return bool(direct_calls(x) & names)


def mentions(t, w):
    return isinstance(t, tuple) and (t[0] == w or any(mentions(x, w) for x in t[1:]))
