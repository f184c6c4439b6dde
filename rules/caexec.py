"""Abstract interpreter for core forms of the cora sources.

A value is concrete (int, str, bool, Sym, Pair, NIL), a closure, or a term:
a tuple ('app', name, args...) for the result of an operation without a model,
('any', what) for an unknown one.  Both branches of a condition that is not
concrete are followed; evaluation returns the set of possible values (TOP when
there are too many).  Calls that `on_call` recognises are recorded as events
instead of being entered."""
from rules.coralang import S, Sym, Pair, NIL, to_list, eq
from rules.coraforms import quoted_symbol

TOP = ('any', 'anything')
LIMIT = 24


class Clo:
    __slots__ = ('params', 'body', 'env', 'args', 'name')

    def __init__(self, params, body, env, args=(), name=''):
        self.params, self.body, self.env, self.args, self.name = params, body, env, args, name


class PrimV:
    __slots__ = ('name', 'n', 'args')

    def __init__(self, name, n, args=()):
        self.name, self.n, self.args = name, n, args


class GiveUp(Exception):
    pass


def concrete(v):
    return isinstance(v, (int, str, bool, Sym, Pair)) or v is NIL


class Vals:
    """A small set of values; equality by identity for closures, structure for terms."""

    def __init__(self, vs=()):
        self.vs = []
        for v in vs:
            self.add(v)

    def add(self, v):
        for w in self.vs:
            if same(v, w) or w is TOP:
                return
        if v is TOP or v == TOP:
            self.vs = [TOP]
            return
        self.vs.append(v)
        if len(self.vs) > LIMIT:
            self.vs = [TOP]

    def __iter__(self):
        return iter(self.vs)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, tuple)) and not isinstance(a, bool):
        try:
            return a == b
        except RecursionError:
            return False
    if isinstance(a, Pair):
        return a is b or eq(a, b)
    if isinstance(a, Clo):
        return a.body is b.body and a.args == b.args and a.env is b.env
    if isinstance(a, PrimV):
        return a.name == b.name and a.args == b.args
    return False


class Exec:
    def __init__(self, P, prims):
        self.P = P
        self.prims = prims           # name -> arity
        self.defs = {}
        for p in P.packages.values():
            if p is None or not p.path:
                continue
            for f, _ in p.forms:
                self.collect(f)
        self.events = []
        self.stack = []
        self.argstack = []
        self.envstack = []
        self.conds = None            # conditions left open are collected here
        self.steps = 0
        self.models = {}             # name -> fn(args) -> value or None
        self.sinks = set()
        self.maxdepth = 1            # how often a function may be re-entered
        self.limit = 400000

    def collect(self, f):
        if isinstance(f, Pair) and f.car is S('set') and isinstance(f.cdr, Pair):
            q = quoted_symbol(f.cdr.car)
            if q is not None and isinstance(f.cdr.cdr, Pair):
                self.defs.setdefault(q.name, []).append(f.cdr.cdr.car)

    # ------------------------------------------------------------
    def glob(self, n):
        d = self.defs.get(n)
        if d and len(d) == 1:
            x = d[0]
            if isinstance(x, Pair) and x.car is S('lambda'):
                return Clo(to_list(x.cdr.car), to_list(x.cdr.cdr)[0], (), (), n)
            if isinstance(x, Sym):
                return self.glob(x.name) if x.name != n else ('any', n)
            if not isinstance(x, Pair):
                return x
            if x.car is S('quote'):
                return x.cdr.car
        if n in self.prims:
            return PrimV(n, self.prims[n])
        a = self.arity_c(n)
        if a:
            return PrimV(n, a)
        return ('any', n)

    def arity_c(self, n):
        if n in self.P.builtins:
            return self.P.builtins[n]
        if '#' in n:
            p, o = n.rsplit('#', 1)
            return self.P.names.get(p, {}).get(o)
        return None

    def ev(self, x, env):
        """Possible values of x; env: tuple of (Sym, value)."""
        self.steps += 1
        if self.steps > self.limit:
            raise GiveUp('too many steps')
        if isinstance(x, Sym):
            e = env
            while e:
                if e[0] is x:
                    return Vals([e[1]])
                e = e[2]
            return Vals([self.glob(x.name)])
        if not isinstance(x, Pair):
            return Vals([x])
        op, args = x.car, to_list(x.cdr)
        if isinstance(op, Sym) and not self.bound(op, env):
            n = op.name
            if n == 'quote':
                return Vals([args[0]])
            if n == 'if' and len(args) == 3:
                out = Vals()
                took = [False, False]
                for c in self.ev(args[0], env):
                    t = [True, True]
                    if c is True:
                        t = [True, False]
                    elif concrete(c) or isinstance(c, (Clo, PrimV)):
                        t = [False, True]
                    elif self.conds is not None:
                        self.conds.append(c)
                    took = [took[0] or t[0], took[1] or t[1]]
                if took[0]:
                    for v in self.ev(args[1], env):
                        out.add(v)
                if took[1]:
                    for v in self.ev(args[2], env):
                        out.add(v)
                return out
            if n == 'do' and len(args) == 2:
                self.ev(args[0], env)
                return self.ev(args[1], env)
            if n == 'let' and len(args) == 3:
                out = Vals()
                for v in self.ev(args[1], env):
                    for w in self.ev(args[2], (args[0], v, env)):
                        out.add(w)
                return out
            if n == 'lambda' and len(args) == 2:
                return Vals([Clo(to_list(args[0]), args[1], env, (), 'lambda')])
        fs = self.ev(op, env)
        avs = [list(self.ev(a, env)) for a in args]
        combos = [()]
        for vs in avs:
            combos = [c + (v,) for c in combos for v in vs]
            if len(combos) > 64:
                combos = [tuple(v[0] if len(v) == 1 else TOP for v in avs)]
                break
        combos = [c + tuple(v[0] if len(v) == 1 else TOP for v in avs[len(c):]) for c in combos]
        out = Vals()
        for f in fs:
            for c in combos:
                for v in self.call(f, c):
                    out.add(v)
        return out

    def bound(self, s, env):
        while env:
            if env[0] is s:
                return True
            env = env[2]
        return False

    def call(self, f, args):
        if isinstance(f, Clo):
            a = f.args + args
            n = len(f.params)
            if len(a) < n:
                return Vals([Clo(f.params, f.body, f.env, a, f.name)])
            rest = a[n:]
            a = a[:n]
            if f.name in self.sinks:
                self.events.append((f.name, a))
                return Vals([NIL])
            m = self.models.get(f.name)
            if m:
                r = m(a)
                if r is not None:
                    return Vals([r])
            # a thunk met again in another activation of its function is not a re-entry
            prev = [b for b, c, e in zip(self.stack, self.argstack, self.envstack) if b is f.body and e is f.env]
            if len(prev) >= self.maxdepth and not self.shrinks(f, a):
                self.recur(f, a)
                return Vals([TOP])
            env = f.env
            for p, v in zip(f.params, a):
                env = (p, v, env)
            self.stack.append(f.body)
            self.argstack.append(a)
            self.envstack.append(f.env)
            try:
                r = self.ev(f.body, env)
            finally:
                self.stack.pop()
                self.argstack.pop()
                self.envstack.pop()
            if rest:
                out = Vals()
                for g in r:
                    for v in self.call(g, rest):
                        out.add(v)
                return out
            return r
        if isinstance(f, PrimV):
            a = f.args + args
            if len(a) < f.n:
                return Vals([PrimV(f.name, f.n, a)])
            rest, a = a[f.n:], a[:f.n]
            if f.name in self.sinks:
                self.events.append((f.name, a))
                return Vals([NIL])
            r = self.prim(f.name, a)
            if rest:
                return self.call(r, rest)
            return Vals([r])
        # a function nothing is known of may call its arguments
        for v in args:
            if isinstance(v, Clo) and not isinstance(f, tuple):
                pass
        for v in args:
            if isinstance(v, Clo):
                k = len(v.params) - len(v.args)
                if sum(1 for b in self.stack if b is v.body) < self.maxdepth:
                    self.call(v, (TOP,) * max(k, 0))
        return Vals([TOP])

    def shrinks(self, f, a):
        """The recursive call walks down a known list."""
        for b, c in zip(reversed(self.stack), reversed(self.argstack)):
            if b is f.body:
                return any(isinstance(p, Pair) and p.cdr is q for p, q in zip(c, a))
        return False

    def recur(self, f, a):
        pass

    def prim(self, n, a):
        m = self.models.get(n)
        if m:
            r = m(a)
            if r is not None:
                return r
        if n == 'cons':
            return Pair(a[0], a[1])
        if n == 'car':
            if isinstance(a[0], Pair):
                return a[0].car
        elif n == 'cdr':
            if isinstance(a[0], Pair):
                return a[0].cdr
        elif n == 'cons?':
            if isinstance(a[0], Pair):
                return True
            if known_kind(a[0]):
                return False
        elif n == '=':
            if all(concrete(v) for v in a):
                if deep_concrete(a[0]) and deep_concrete(a[1]):
                    return eq(a[0], a[1])
                if type(a[0]) is not type(a[1]):
                    return False
        elif n == 'not':
            if concrete(a[0]):
                return a[0] is not True
        elif n in ('symbol?', 'string?', 'integer?', 'number?', 'cora/init#number?'):
            if known_kind(a[0]):
                k = kind(a[0])
                return k == {'symbol?': 'sym', 'string?': 'str'}.get(n, 'int')
        elif n in ('+', '-', '*', '<', '>'):
            if all(type(v) is int for v in a):
                return {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1],
                        '<': lambda: a[0] < a[1], '>': lambda: a[0] > a[1]}[n]()
        if any(isinstance(v, (Clo, PrimV)) for v in a):
            for v in a:
                if isinstance(v, Clo) and n not in ('cons', 'vector-set!', 'set'):
                    pass
            return TOP
        return ('app', n) + tuple(v if not isinstance(v, Pair) else TOP for v in a)


def kind(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, Sym):
        return 'sym'
    if isinstance(v, Pair):
        return 'pair'
    if v is NIL:
        return 'nil'
    if isinstance(v, tuple) and v[0] == 'app':
        n = v[1].split('#')[-1]
        return {'symbol->string': 'str', 'number->string': 'str', 'string-append': 'str', 'string-index': 'str',
                'string-slice': 'str', 'byte-ref': 'int', '+': 'int', '-': 'int', 'intern': 'sym', 'gensym': 'sym',
                'string-length': 'int', 'bytes-length': 'int', 'vector': 'vec'}.get(n)
    return None


def known_kind(v):
    return kind(v) is not None or isinstance(v, (Clo, PrimV))


def deep_concrete(v):
    while isinstance(v, Pair):
        if not deep_concrete(v.car):
            return False
        v = v.cdr
    return concrete(v)
