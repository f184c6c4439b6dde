"""Reader, macro expander and evaluator of the cora language, used to turn the
.cora sources into core forms (quote, lambda, if, do, let, application) the way
the language itself does: the macros are those defined in init.cora and the
libraries.  Nothing of this touches the built program."""
import os
import sys


class Sym:
    __slots__ = ('name', 'value', 'gen')
    table = {}

    def __init__(self, name, gen=False):
        self.name = name
        self.value = None
        self.gen = gen

    def __repr__(self):
        return self.name


def S(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class Pair:
    __slots__ = ('car', 'cdr', 'line')

    def __init__(self, car, cdr, line=0):
        self.car = car
        self.cdr = cdr
        self.line = line


class _Nil:
    def __repr__(self):
        return '()'


NIL = _Nil()


class _Undef:
    def __repr__(self):
        return '#undef'


UNDEF = _Undef()


class Opaque:
    """Result of an operation the expander has no model of."""

    def __init__(self, why):
        self.why = why


class ReadError(Exception):
    pass


class EvalError(Exception):
    pass


def lst(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def to_list(p):
    r = []
    while isinstance(p, Pair):
        r.append(p.car)
        p = p.cdr
    return r


def is_list(p):
    while isinstance(p, Pair):
        p = p.cdr
    return p is NIL


# ------------------------------------------------------------------ reader
# Mirrors src/reader.c.
IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
            '*/<=>!?:$%_&~^.#|@+-')


class Reader:
    def __init__(self, text, file='?'):
        self.t = text
        self.p = 0
        self.line = 1
        self.file = file

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else ''

    def next(self):
        if self.p >= len(self.t):
            return ''
        c = self.t[self.p]
        self.p += 1
        if c == '\n':
            self.line += 1
        return c

    def ws(self):
        while True:
            c = self.peek()
            if c and c.isspace():
                self.next()
            elif c == ';':
                while self.peek() not in ('', '\n'):
                    self.next()
            else:
                return

    def read(self):
        """Next expression or None at the end of the text."""
        self.ws()
        c = self.peek()
        line = self.line
        if c == '':
            return None
        if c.isdigit():
            s = ''
            while self.peek().isdigit():
                s += self.next()
            return int(s)
        self.next()
        if c == "'":
            return Pair(S('quote'), Pair(self.need(), NIL, line), line)
        if c == '`':
            return Pair(S('backquote'), Pair(self.need(), NIL, line), line)
        if c == ',':
            return Pair(S('unquote'), Pair(self.need(), NIL, line), line)
        if c == '(':
            return self.seq(')', False, line)
        if c == '[':
            return self.seq(']', True, line)
        if c == '"':
            s = ''
            while True:
                c = self.next()
                if c == '':
                    raise ReadError('%s:%d: string not terminated' % (self.file, line))
                if c == '"':
                    return s
                if c == '\\':
                    c = self.next()
                    if c == 'n':
                        c = '\n'
                s += c
        s = c
        if c in IDENT or c.isalpha():
            while self.peek() and (self.peek() in IDENT or self.peek().isalnum()):
                s += self.next()
            if s == 'true':
                return True
            if s == 'false':
                return False
            if s[0] == '-' and len(s) > 1 and s[1:].isdigit():
                return int(s)
            return S(s)
        raise ReadError('%s:%d: cannot read %r' % (self.file, line, c))

    def need(self):
        x = self.read()
        if x is None:
            raise ReadError('%s:%d: unexpected end of file' % (self.file, self.line))
        return x

    def seq(self, close, macro, line):
        items, tail = [], NIL
        while True:
            self.ws()
            c = self.peek()
            if c == '':
                raise ReadError('%s:%d: list not terminated' % (self.file, line))
            if c == close:
                self.next()
                break
            if c in ')]':
                raise ReadError('%s:%d: %s where %s was expected' % (self.file, self.line, c, close))
            if c == '.' and items:
                # a dot standing alone introduces the tail
                nx = self.t[self.p + 1] if self.p + 1 < len(self.t) else ''
                if nx.isspace() or nx in '([':
                    self.next()
                    tail = self.need()
                    self.ws()
                    if self.next() != close:
                        raise ReadError('%s:%d: bad dotted list' % (self.file, self.line))
                    if macro:
                        return Pair(S('list-rest'), self.mk(items + [tail], line), line)
                    return self.mk(items, line, tail)
            l0 = self.line
            x = self.need()
            items.append(x)
        if macro:
            return Pair(S('list'), self.mk(items, line), line)
        return self.mk(items, line)

    def mk(self, items, line, tail=NIL):
        r = tail
        for x in reversed(items):
            r = Pair(x, r, x.line if isinstance(x, Pair) else line)
        if isinstance(r, Pair):
            r.line = line
        return r


def read_file(path):
    r = Reader(open(path, encoding='latin-1').read(), path)
    out = []
    while True:
        x = r.read()
        if x is None:
            return out
        out.append(x)


# ------------------------------------------------------------------ printing
def show(x, depth=6):
    if x is True:
        return 'true'
    if x is False:
        return 'false'
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, Pair):
        if depth == 0:
            return '(...)'
        r = []
        n = 0
        while isinstance(x, Pair):
            n += 1
            if n > 8:
                return '(' + ' '.join(r) + ' ...)'
            r.append(show(x.car, depth - 1))
            x = x.cdr
        return '(' + ' '.join(r) + ('' if x is NIL else ' . ' + show(x, depth - 1)) + ')'
    return repr(x)


def eq(a, b):
    while True:
        if a is b:
            return True
        if isinstance(a, Pair):
            if not isinstance(b, Pair) or not eq(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
            continue
        if type(a) is not type(b):
            return False
        if isinstance(a, (str, int)):
            return a == b
        return False


# ------------------------------------------------------------------ evaluator
class Fn:
    __slots__ = ('n', 'call', 'args', 'name')

    def __init__(self, n, call, args=(), name=''):
        self.n = n
        self.call = call
        self.args = args
        self.name = name

    def __repr__(self):
        return '#fn'


def apply_fn(f, args):
    while True:
        if not isinstance(f, Fn):
            raise EvalError('call of %r' % (f,))
        if f.args:
            args = f.args + args
        n = f.n
        k = len(args)
        if k == n:
            return f.call(*args)
        if k < n:
            return Fn(n, f.call, args, f.name)
        f, args = f.call(*args[:n]), args[n:]


def checknum(x):
    if type(x) is not int:
        raise EvalError('not a number: %s' % show(x))
    return x


def cdiv(a, b):
    q = abs(checknum(a)) // abs(checknum(b))
    return q if (a < 0) == (b < 0) else -q


def car(x):
    if not isinstance(x, Pair):
        raise EvalError('car of %s' % show(x))
    return x.car


def cdr(x):
    if not isinstance(x, Pair):
        raise EvalError('cdr of %s' % show(x))
    return x.cdr


def vec_set(v, i, x):
    v[i] = x
    return v


class World:
    """Globals of one evaluated program."""

    def __init__(self):
        self.g = {}
        self.ngen = 0
        self.steps = 0
        P = {
            'car': (1, car), 'cdr': (1, cdr), 'cons': (2, Pair),
            'cons?': (1, lambda x: isinstance(x, Pair)),
            '+': (2, lambda a, b: checknum(a) + checknum(b)),
            '-': (2, lambda a, b: checknum(a) - checknum(b)),
            '*': (2, lambda a, b: checknum(a) * checknum(b)),
            '/': (2, cdiv), '=': (2, eq),
            '>': (2, lambda a, b: checknum(a) > checknum(b)),
            '<': (2, lambda a, b: checknum(a) < checknum(b)),
            'gensym': (0, self.gensym), 'symbol?': (1, lambda x: isinstance(x, Sym)),
            'not': (1, lambda x: not x), 'integer?': (1, lambda x: type(x) is int),
            'string?': (1, lambda x: isinstance(x, str)),
            'set': (2, self.set_),
        }
        self.prims = {S(k): Fn(n, f, (), k) for k, (n, f) in P.items()}
        B = {
            'symbol->string': (1, lambda s: s.name), 'intern': (1, S),
            'number?': (1, lambda x: type(x) is int),
            'string-append': (2, lambda a, b: a + b),
            'value': (1, self.value), 'value-or': (2, self.value_or),
            'apply': (2, lambda f, l: apply_fn(f, tuple(to_list(l)))),
            'vector': (1, lambda n: [NIL] * n), 'vector?': (1, lambda x: isinstance(x, list)),
            'vector-ref': (2, lambda v, i: v[i]), 'vector-set!': (3, vec_set),
            'vector-length': (1, len),
            'symbol-cooked?': (1, lambda s: '#' in s.name and not s.gen),
            'import': (1, lambda p: NIL), 'load': (1, lambda p: NIL),
            'bytes': (1, lambda n: '\0' * n), 'bytes-length': (1, len),
        }
        for k, (n, f) in B.items():
            self.g[S(k)] = Fn(n, f, (), k)
        self.g[S('cora/init#*imported*')] = NIL

    def gensym(self):
        self.ngen += 1
        return Sym('#g%d' % self.ngen, True)

    def set_(self, s, v):
        self.g[s] = v
        return v

    def value(self, s):
        v = self.g.get(s, UNDEF)
        if v is UNDEF:
            raise EvalError('undefined: %s' % s)
        return v

    def value_or(self, s, d):
        v = self.g.get(s, UNDEF)
        return d if v is UNDEF else v

    # core form -> python closure taking the environment (linked lists of dicts)
    def comp(self, x, env):
        """env: python list of symbols (compile time), innermost last."""
        g = self.g
        if isinstance(x, Sym):
            for i in range(len(env) - 1, -1, -1):
                if env[i] is x:
                    return lambda e, i=i: e[i]
            if x in self.prims and x not in g:
                f = self.prims[x]
                return lambda e: f

            def gref(e):
                v = g.get(x, UNDEF)
                if v is UNDEF:
                    raise EvalError('undefined: %s' % x.name)
                return v
            return gref
        if not isinstance(x, Pair):
            return lambda e: x
        op = x.car
        if isinstance(op, Sym) and op not in env:
            n = op.name
            if n == 'quote':
                v = x.cdr.car
                return lambda e: v
            if n == 'if':
                a, b, c = (self.comp(y, env) for y in to_list(x.cdr)[:3])
                return lambda e: b(e) if a(e) is True else c(e)
            if n == 'do':
                a, b = (self.comp(y, env) for y in to_list(x.cdr)[:2])

                def do(e):
                    a(e)
                    return b(e)
                return do
            if n == 'let':
                v, ini, body = to_list(x.cdr)[:3]
                i1 = self.comp(ini, env)
                b1 = self.comp(body, env + [v])
                return lambda e: b1(e + (i1(e),))
            if n == 'lambda':
                params = to_list(x.cdr.car)
                b = self.comp(x.cdr.cdr.car, env + params)
                k = len(params)
                return lambda e: Fn(k, lambda *a: b(e + a))
            if n == 'def':
                v = x.cdr.car
                i1 = self.comp(x.cdr.cdr.car, env)

                def df(e):
                    g[v] = r = i1(e)
                    return r
                return df
            p = self.prims.get(op)
            if p is not None:
                args = [self.comp(y, env) for y in to_list(x.cdr)]
                if len(args) == p.n:
                    f = p.call
                    if p.n == 1:
                        a0 = args[0]
                        return lambda e: f(a0(e))
                    if p.n == 2:
                        a0, a1 = args
                        return lambda e: f(a0(e), a1(e))
                    return lambda e: f(*[a(e) for a in args])
                return lambda e: apply_fn(p, tuple([a(e) for a in args]))
        f = self.comp(op, env)
        args = [self.comp(y, env) for y in to_list(x.cdr)]

        def app(e):
            fn = f(e)
            a = tuple([y(e) for y in args])
            if isinstance(fn, Fn) and not fn.args and fn.n == len(a):
                return fn.call(*a)
            return apply_fn(fn, a)
        return app

    def eval(self, x):
        return self.comp(x, [])(())

    # the expander before init.cora has defined its own
    def boot_expand(self, x):
        if not isinstance(x, Pair):
            return x
        if x.car is S('quote'):
            return x
        return Pair(self.boot_expand(x.car), self.boot_expand(x.cdr), x.line)

    def expand(self, x):
        f = self.g.get(S('macroexpand'))
        if f is None:
            return self.boot_expand(x)
        return apply_fn(f, (x,))


def deep(fn):
    """Runs fn with room for deep recursion."""
    import threading
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        try:
            box['r'] = fn()
        except BaseException as e:  # noqa: BLE001
            box['e'] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box['r']
