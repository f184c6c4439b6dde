"""K03: known functions are called with a number of arguments they accept.

Every expression gets a kind: data, a function still waiting for n arguments
(the kind of its result is known), or unknown.  Applying data is an error;
so is using a function that still waits for arguments as a datum (argument of a
data primitive, tested by if, thrown away), and a function whose result is
sometimes data, sometimes such a partial call of a known function."""
import os
from rules.coralang import S, Sym, Pair, NIL, to_list, show
from rules.coraforms import program, result, quoted_symbol, names_of

NEEDS = ['NAMES']
# mixed: data on some paths, anything on others
UNK, DATA, BOT, MIXED = ('?',), ('data',), ('bot',), ('mixed',)
# operations of C whose result may be any value
ANYRES = {'value', 'value-or', 'apply', 'vector-ref', 'try', 'throw', 'car', 'cdr', 'load', 'import', 'load-so',
          'read-file-as-sexp', 'cora/lib/eval#make-closure-for-eval', 'vector-set!', 'set'}
# primitives: which operands must be data for the call to make sense
DATAARGS = {'car': 'a pair', 'cdr': 'a pair', '+': 'a number', '-': 'a number', '*': 'a number', '/': 'a number',
            '<': 'a number', '>': 'a number', 'not': 'a boolean'}
# operations of C that take functions or keep any value
STORES = {'thread-local-set', 'cons', 'symbol-cooked', 'bind-symbol', 'display', 'print'}
PREDS = {'cons?', 'symbol?', 'string?', 'integer?', '='}


def fn(n, res, why=''):
    return ('fn', n, res, why)


class An:
    def __init__(self, P, repo, R):
        self.P, self.R, self.repo = P, R, repo
        self.globals = {}      # name -> (params, body, package, line) or ('c', arity)
        self.multi = set()
        self.res = {}          # name -> kind of the result of a full call
        self.wants = {}        # name -> positions of parameters used as data
        self.report = False
        self.calls = 0
        self.known = 0
        self.seen = set()

    def viol(self, key, line, msg):
        if not self.report:
            return
        key = '%s: %s' % (self.where, key)
        if key in self.seen:
            return
        self.seen.add(key)
        rel = os.path.relpath(self.pkg.path, self.repo)
        self.R['violations'].append({'rule': 'K03', 'key': key, 'where': '%s:%d' % (rel, self.line), 'msg': msg})

    # kind of a global used as a value
    def gkind(self, n):
        g = self.globals.get(n)
        if g is None or n in self.multi:
            return UNK
        if g[0] == 'c':
            base = n.split('#')[-1]
            r = UNK if base in ANYRES or n in ANYRES else DATA
            return fn(g[1], r, n) if g[1] > 0 else ('fn0', r, n)
        if g[0] == 'alias':
            return self.gkind(g[1]) if g[1] != n else UNK
        if g[0] == 'data':
            return DATA
        k = len(g[1])
        r = self.res.get(n, BOT)
        return fn(k, r, n) if k else ('fn0', r, n)

    def apply(self, f, k, line, txt):
        """Kind of calling f with k arguments."""
        self.calls += 1
        while True:
            if f == UNK or f == BOT:
                return f
            if f in (DATA, MIXED):
                self.viol('%s applied to %d more' % (txt, k), line,
                          '%s is given %d argument(s) more than it takes: its result is %s' % (
                              txt, k, 'never a function' if f == DATA else 'data on some of its paths'))
                return UNK
            if f[0] == 'fn0':
                if k == 0:
                    return f[1]
                f = f[1]
                if f == BOT:
                    return BOT
                continue
            _, n, r, why = f
            self.known += 1
            if k < n:
                return fn(n - k, r, why)
            if k == n:
                return r
            k -= n
            f = r

    def join(self, a, b):
        if a == BOT or a == b:
            return b
        if b == BOT:
            return a
        if {a[0], b[0]} <= {'data', 'mixed', '?'}:
            return MIXED
        return UNK

    def partial(self, k):
        """A call of a known function that lacks arguments (not a lambda)."""
        return k[0] == 'fn' and k[3].startswith('partial ')

    def ev(self, x, env, line):
        while True:
            if isinstance(x, Sym):
                if x in env:
                    return env[x]
                if x.name in self.prims and x.name not in self.globals:
                    return fn(self.prims[x.name], UNK, x.name) if self.prims[x.name] else UNK
                return self.gkind(x.name)
            if not isinstance(x, Pair):
                return DATA
            op, args = x.car, to_list(x.cdr)
            if isinstance(op, Sym) and op not in env:
                n = op.name
                if n == 'quote':
                    return DATA
                if n == 'if' and len(args) == 3:
                    c = self.ev(args[0], env, line)
                    self.data_use(c, 'the condition of if', line, args[0])
                    a = self.ev(args[1], env, line)
                    b = self.ev(args[2], env, line)
                    for p, q, px in ((a, b, args[1]), (b, a, args[2])):
                        if p[0] == 'fn' and p[3].startswith('partial ') and q in (DATA, MIXED):
                            self.viol('%s lacks %d' % (p[3], p[1]), line,
                                      'a branch returns %s, still waiting for %d argument(s), where the other returns data'
                                      % (p[3], p[1]))
                    return self.join(a, b)
                if n == 'do' and len(args) == 2:
                    c = self.ev(args[0], env, line)
                    if c[0] == 'fn' and isinstance(args[0], Pair) and c[3].startswith('partial '):
                        self.viol('%s discarded, lacks %d' % (c[3], c[1]), line,
                                  '%s lacks %d argument(s) and its value is thrown away: it never runs' % (c[3], c[1]))
                    x = args[1]
                    continue
                if n == 'let' and len(args) == 3:
                    v = self.ev(args[1], env, line)
                    env = dict(env)
                    env[args[0]] = v
                    x = args[2]
                    continue
                if n == 'lambda' and len(args) == 2:
                    ps = to_list(args[0])
                    e2 = dict(env)
                    for p in ps:
                        e2[p] = UNK
                    r = self.ev(args[1], e2, line)
                    return fn(len(ps), r, 'lambda') if ps else ('fn0', r, 'lambda')
                if n in self.prims:
                    need = self.prims[n]
                    ks = [self.ev(a, env, line) for a in args]
                    self.calls += 1
                    self.known += 1
                    for a, k in zip(args, ks):
                        if n in DATAARGS:
                            self.data_use(k, 'an operand of %s (%s)' % (n, DATAARGS[n]), line, a)
                        elif n in PREDS and self.partial(k):
                            self.data_use(k, 'an operand of %s' % n, line, a)
                    if n == 'cons' and len(args) == 2 and self.partial(ks[1]):
                        self.data_use(ks[1], 'the rest of a list', line, args[1])
                    if len(args) > need:
                        if n in ('car', 'cdr', 'set'):
                            return UNK
                        self.viol('%s given %d' % (n, len(args)), line, '%s takes %d operand(s), %d given' % (n, need, len(args)))
                        return UNK
                    res = UNK if n in ('car', 'cdr', 'set') else DATA
                    if len(args) < need:
                        return fn(need - len(args), res, 'partial ' + n)
                    if n == 'set' and len(ks) == 2:
                        return ks[1]
                    return res
                f = self.gkind(n)
                txt = n
            else:
                f = self.ev(op, env, line)
                txt = op.name if isinstance(op, Sym) else f[3] if f[0] == 'fn' and f[3] else 'the operator'
            ks = [self.ev(a, env, line) for a in args]
            if f[0] == 'fn':
                want = self.wants.get(f[3], ())
                g = self.globals.get(f[3])
                if g and g[0] == 'c' and f[3] not in self.multi and f[3].split('#')[-1] not in ANYRES | STORES:
                    want = range(g[1])
                for i, k in enumerate(ks):
                    if i in want and self.partial(k):
                        self.data_use(k, 'argument %d of %s, which needs a datum' % (i + 1, f[3]), line, args[i])
            r = self.apply(f, len(args), line, txt)
            if r[0] == 'fn' and f[0] == 'fn' and len(args) < f[1]:
                r = fn(r[1], r[2], 'partial ' + txt)
            return r

    def data_use(self, k, what, line, x):
        if k[0] in ('fn', 'fn0') and not (what.startswith('the condition') and k[0] == 'fn0'):
            nm = k[3] if k[0] == 'fn' else k[2]
            self.viol('%s as %s' % (nm, what), line, '%s is a function%s, used as %s' % (
                nm, ' still waiting for %d argument(s)' % k[1] if k[0] == 'fn' else '', what))


def run(repo, tier, results):
    R = result()
    P = program(repo, results)
    A = An(P, repo, R)
    A.prims = {to_list(x)[0].name: to_list(x)[1] for x in to_list(P.w.g[S('cora/init#*builtin-prims*')])}
    for n, ar in P.builtins.items():
        A.globals[n] = ('c', ar)
    for n, ops in P.names.items():
        if n != '-':
            for o, ar in ops.items():
                A.globals[n + '#' + o] = ('c', ar)
    count = {}

    def collect(x, depth, pkg, line):
        st = [(x, depth)]
        while st:
            y, d = st.pop()
            if not isinstance(y, Pair) or y.car is S('quote'):
                continue
            if y.car is S('set') and isinstance(y.cdr, Pair) and quoted_symbol(y.cdr.car) is not None:
                s = quoted_symbol(y.cdr.car).name
                count[s] = count.get(s, 0) + 1
                v = y.cdr.cdr.car if isinstance(y.cdr.cdr, Pair) else None
                if d or v is None:
                    A.multi.add(s)
                elif isinstance(v, Pair) and v.car is S('lambda'):
                    A.globals[s] = ('fn', to_list(v.cdr.car), to_list(v.cdr.cdr)[0], pkg, line)
                elif isinstance(v, Sym):
                    A.globals[s] = ('alias', v.name)
            d2 = d + (y.car is S('lambda'))
            z = y
            while isinstance(z, Pair):
                st.append((z.car, d2))
                z = z.cdr
    libs = [p for p in P.packages.values() if p is not None and p.path]
    for p in libs:
        for f, line in p.forms:
            collect(f, 0, p, line)
    for s, n in count.items():
        # a second definition, also one over a built-in
        if n > 1 or s in P.builtins or s in A.prims:
            A.multi.add(s)
    fns = {s: g for s, g in A.globals.items() if g[0] == 'fn' and s not in A.multi}
    A.pkg, A.where, A.line = None, '', 0
    for _ in range(12):
        changed = False
        for s, g in fns.items():
            env = {p: UNK for p in g[1]}
            k = A.ev(g[2], env, g[4])
            k = cut(k)
            if A.res.get(s, BOT) != k:
                k = A.join(A.res.get(s, BOT), k)
                changed = changed or A.res.get(s, BOT) != k
                A.res[s] = k
        if not changed:
            break
    for s in fns:
        if A.res.get(s, BOT) == BOT:
            A.res[s] = UNK
    wanted(A, fns)
    A.report = True
    A.calls = A.known = 0
    for p in libs:
        A.pkg = p
        for f, line in p.forms:
            A.line = line
            s = None
            if isinstance(f, Pair) and f.car is S('set') and isinstance(f.cdr, Pair):
                q = quoted_symbol(f.cdr.car)
                s = q.name if q is not None else None
            A.where = s or p.name + ' top level'
            A.ev(f, {}, line)
    R['counts'] = {'functions': len(fns), 'calls': A.calls, 'calls of known functions': A.known,
                   'parameters that need data': sum(len(w) for w in A.wants.values()),
                   'functions that always return data': sum(1 for k in A.res.values() if k == DATA)}
    R['samples']['functions'] = ['%s/%d -> %s' % (s, len(g[1]), A.res[s][0]) for s, g in list(fns.items())[:20]]
    if A.known < 1500 or len(fns) < 300:
        R['broken'].append('only %d functions, %d known calls' % (len(fns), A.known))
    return R


def wanted(A, fns):
    """Parameters that are operands of data primitives and never called."""
    called = {}
    flows = {}
    for s, g in fns.items():
        W, C, F = set(), set(), []

        def walk(x, env):
            while isinstance(x, Pair):
                op, args = x.car, to_list(x.cdr)
                if isinstance(op, Sym) and op not in env:
                    if op.name == 'quote':
                        return
                    if op.name == 'lambda' and len(args) == 2:
                        env = {k: v for k, v in env.items() if k not in to_list(args[0])}
                        x = args[1]
                        continue
                    if op.name == 'let' and len(args) == 3:
                        walk(args[1], env)
                        e = dict(env)
                        e.pop(args[0], None)
                        if isinstance(args[1], Sym) and args[1] in env:
                            e[args[0]] = env[args[1]]
                        env, x = e, args[2]
                        continue
                    if op.name == 'if' and args and isinstance(args[0], Sym) and args[0] in env:
                        W.add(env[args[0]])
                    for i, a in enumerate(args):
                        if isinstance(a, Sym) and a in env:
                            if op.name in DATAARGS and op.name in A.prims:
                                W.add(env[a])
                            elif op.name not in A.prims and op.name not in ('if', 'do'):
                                F.append((env[a], op.name, i))
                elif isinstance(op, Sym):
                    C.add(env[op])
                    for a in args:
                        if isinstance(a, Sym) and a in env:
                            C.add(env[a])  # handed to unknown code
                else:
                    walk(op, env)
                for a in args:
                    walk(a, env)
                return

        walk(g[2], {p: i for i, p in enumerate(g[1])})
        A.wants[s], called[s], flows[s] = W, C, F
    while True:
        ch = False
        for s, F in flows.items():
            for p, callee, i in F:
                if p not in called[s] and (callee not in fns or i in called[callee]) and callee not in A.multi:
                    if callee in fns or A.gkind(callee)[0] != 'fn' or callee.split('#')[-1] in ANYRES:
                        called[s].add(p)
                        ch = True
                if callee in fns and i in A.wants[callee] and p not in A.wants[s]:
                    A.wants[s].add(p)
                    ch = True
        if not ch:
            break
    for s in A.wants:
        A.wants[s] -= called[s]


def cut(k, d=0):
    """Bounds the depth of result kinds of result kinds."""
    if k[0] == 'fn':
        return ('fn', k[1], cut(k[2], d + 1) if d < 3 else UNK, k[3])
    if k[0] == 'fn0':
        return ('fn0', cut(k[1], d + 1) if d < 3 else UNK, k[2])
    return k
