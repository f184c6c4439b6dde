"""K02: every global name the shipped libraries use is defined by a package
that is loaded when the using code runs."""
import os
import re
from rules.coralang import S, Sym, Pair, NIL, to_list, show
from rules.coraforms import program, result, quoted_symbol, line_of

NEEDS = ['NAMES']
START = ('cora/init', 'cora/lib/toc', 'cora/lib/eval')   # main loads these first
IMAGES = (('init', 'cora/init'), ('lib/toc', 'cora/lib/toc'))
CORE = {'quote', 'if', 'do', 'let', 'lambda', 'set'}


class Walk:
    def __init__(self):
        self.refs = []     # (symbol name, kind, function, line)
        self.defs = []     # (symbol name, depth, index of the form)
        self.bad = []

    def walk(self, x, env, where, line, depth):
        while True:
            if isinstance(x, Sym):
                if x not in env:
                    self.refs.append((x.name, 'value', where, line, depth))
                return
            if not isinstance(x, Pair):
                return
            op = x.car
            args = to_list(x.cdr)
            if isinstance(op, Sym) and op not in env:
                n = op.name
                if n == 'quote':
                    return
                if n == 'if' and len(args) == 3 or n == 'do' and len(args) == 2:
                    for y in args:
                        self.walk(y, env, where, line, depth)
                    return
                if n == 'let' and len(args) == 3:
                    self.walk(args[1], env, where, line, depth)
                    env, x = env | {args[0]}, args[2]
                    continue
                if n == 'lambda' and len(args) == 2:
                    env, x, depth = env | set(to_list(args[0])), args[1], depth + 1
                    continue
                if n in CORE - {'set'}:
                    self.bad.append(('malformed %s' % n, where, line))
                    return
                if n == 'set' and args:
                    s = quoted_symbol(args[0])
                    if s is not None:
                        if len(args) == 2:
                            self.walk(args[1], env, where if depth else s.name, line, depth)
                        self.defs.append((s.name, depth))
                        return
                if n in ('value',) or n.endswith('#value'):
                    s = quoted_symbol(args[0]) if args else None
                    if s is not None:
                        self.refs.append((s.name, 'value', where, line, depth))
                self.refs.append((n, 'call', where, line, depth))
            else:
                self.walk(op, env, where, line, depth)
            for y in args:
                self.walk(y, env, where, line, depth)
            return


def shipped(repo, P):
    """Packages the build can load: those whose imports exist."""
    out, gone = {}, {}
    for n, p in P.packages.items():
        if p is None:
            continue
        out[n] = p
    return out


def run(repo, tier, results):
    R = result()
    P = program(repo, results)
    prims = {to_list(x)[0].name for x in to_list(P.w.g[S('cora/init#*builtin-prims*')])}
    macros = {p.car.name for p in to_list(P.w.g[S('*macros*')])}
    pk = shipped(repo, P)
    walks, defs = {}, {'-': set(P.builtins) | {'cora/init#*imported*'}}
    order = {}
    nrefs = 0

    seen_keys = set()

    def viol(pkg, key, where, msg):
        if key in seen_keys:
            return
        seen_keys.add(key)
        R['violations'].append({'rule': 'K02', 'key': key, 'where': where, 'msg': msg})

    for n, p in pk.items():
        if not p.path:
            defs[n] = {n + '#' + e for e in p.exports} | {n + '#*ns-export*'}
            continue
        w = walks[n] = Walk()
        defs[n] = set()
        order[n] = []
        for f, line in p.forms:
            a, b = len(w.refs), len(w.defs)
            w.walk(f, frozenset(), '(top level)', line, 0)
            order[n].append((w.refs[a:], w.defs[b:]))
            defs[n] |= {d for d, _ in w.defs[b:]}
    dead = {}
    for n, p in pk.items():
        rel = os.path.relpath(p.path, repo) if p.path else n
        for line, e in p.errors:
            m = re.match(r'imports (\S+), which does not exist', e)
            viol(n, '%s: %s' % (n, e), '%s:%d' % (rel, line), e)
            if m:
                dead[n] = m.group(1)
    for n, w in walks.items():
        p = pk[n]
        rel = os.path.relpath(p.path, repo)
        seen, st, vis = set(), [n, '-', *START], set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            vis |= defs.get(k, set())
            if pk.get(k):
                st += pk[k].imports
        for msg, where, line in w.bad:
            viol(n, '%s: %s in %s' % (n, msg, where), '%s:%d' % (rel, line), msg)
        for s, kind, where, line, depth in w.refs:
            nrefs += 1
            if kind == 'call' and s in prims:
                continue
            if s in vis:
                continue
            short = s[len(n) + 1:] if s.startswith(n + '#') else s
            if n in dead and (s.startswith(dead[n] + '#') or s.startswith(n + '#')):
                continue      # the missing import is the report
            if '#' in s and not s.startswith(n + '#') and any(s in d for d in defs.values()):
                # written out with its package: the user of this code loads it
                R['samples'].setdefault('qualified names of packages not imported', []).append('%s in %s' % (s, n))
                continue
            viol(n, '%s: %s' % (n, short), '%s:%d' % (rel, line),
                 '%s uses %s, which no package loaded with it defines%s' % (
                     where, short, ' (it is a macro, used where macros are not expanded)' if short in macros else ''))
        # top-level code runs in order: what it needs must be set before
        have = set(defs['-'])
        for k in (seen - {n}):
            have |= defs.get(k, set())
        fdef = {}
        for refs, ds in order[n]:
            for s, kind, where, line, depth in refs:
                if depth == 0 and not (kind == 'call' and s in prims) and s in vis and s not in have:
                    viol(n, '%s: %s too early' % (n, s), '%s:%d' % (rel, line),
                         'top-level code uses %s before it is defined' % s)
            have |= {d for d, depth in ds if depth == 0}
        for e in p.exports:
            if n in dead:
                continue
            if n + '#' + e not in vis and e not in macros:
                viol(n, '%s: export %s' % (n, e), rel, 'exports %s, which it does not define' % e)
    # compiled images: every global they read is set by an image or by C code
    imgdefs = {}
    for g, n in IMAGES:
        slots, sets, refs = {}, [], []
        for x in results['NAMES']['samples'].get(g, []):
            kind, k, fn, pkg, nm = x.split(' ', 4)
            if kind == 'slot':
                slots[int(k)] = nm
            elif kind == 'gset':
                sets.append((int(k), fn))
            elif kind == 'gref':
                refs.append((int(k), fn))
        own = {slots.get(k) for k, _ in sets} - {None}
        imgdefs[n] = own
        vis = set(defs['-'])
        for d in imgdefs.values():
            vis |= d
        for i in (pk[n].imports if pk.get(n) else ()):
            if not pk[i].path:
                vis |= defs[i]
        R['counts']['global references of compiled images'] = R['counts'].get('global references of compiled images', 0) + len(refs) + len(sets)
        for k, fn in refs + sets:
            if k not in slots:
                viol(n, '%s image: no name in slot %d' % (n, k), '%s.c (%s)' % (g, fn),
                     'the compiled function %s uses slot %d of the name table, which entry does not fill' % (fn, k))
        for k, fn in refs:
            if k in slots and slots[k] not in vis:
                viol(n, '%s image: %s' % (n, slots[k]), '%s.c (%s)' % (g, fn),
                     'the compiled function %s uses %s, which nothing defines' % (fn, slots[k]))
    if R['counts'].get('global references of compiled images', 0) < 400:
        R['broken'].append('the globals of the compiled images were not recognised')
    # what the other packages use of these packages exists in the image that is loaded
    for n, w in walks.items():
        if n in imgdefs:
            continue
        rel = os.path.relpath(pk[n].path, repo)
        for s, kind, where, line, depth in w.refs:
            for i, d in imgdefs.items():
                if s in defs[i] and s not in d and s not in defs['-'] and s not in defs[n] and s not in imgdefs['cora/init']:
                    viol(n, '%s: %s not in the image' % (n, s), '%s:%d' % (rel, line),
                         '%s uses %s of %s, which its compiled image does not define' % (where, s, i))
    # names the C code asks for
    allnames = set().union(*[imgdefs.get(n, d) for n, d in defs.items()])
    cref = 0
    for g, l in results['NAMES']['samples'].items():
        for x in l:
            kind, ar, fn, pkg, nm = x.split(' ', 4)
            if kind != 'ref':
                continue
            cref += 1
            if g in ('init', 'lib/toc'):
                continue
            if nm not in allnames:
                viol('-', '%s: %s' % (g, nm), fn, 'the C function %s calls %s, which nothing defines' % (fn, nm))
    R['counts'].update({
        'packages': len(walks), 'definitions': sum(len(d) for d in defs.values()),
        'global references': nrefs, 'names used by C code': cref,
    })
    for n, w in walks.items():
        R['samples'].setdefault('packages', []).append('%s: %d forms, %d references' % (n, len(pk[n].forms), len(w.refs)))
    if len(walks) < 12 or nrefs < 2000:
        R['broken'].append('only %d packages with %d references found' % (len(walks), nrefs))
    return R

