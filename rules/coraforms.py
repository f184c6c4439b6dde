"""Expands every .cora source of the repository to core forms with resolved
names, package by package, with the language's own macro expander."""
import os
import glob
from rules.coralang import (World, S, Sym, Pair, NIL, Fn, EvalError, ReadError, UNDEF,
                            read_file, to_list, show, apply_fn, lst, deep)

INIT = 'cora/init'


class Package:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.forms = []      # core forms in evaluation order
        self.imports = []
        self.exports = []
        self.raw = None
        self.errors = []


class Program:
    """names: {package or '-': {operation: arity}} of the C code (rule NAMES)."""

    def __init__(self, repo, names):
        self.repo = repo
        self.names = names
        self.w = World()
        self.packages = {}
        self.loading = []
        self.builtins = dict(names.get('-', {}))
        for n, ar in self.builtins.items():
            if S(n) not in self.w.g:
                self.w.g[S(n)] = Fn(max(ar, 0), self.opaque(n), (), n)
        self.load_init()

    def opaque(self, n):
        def call(*a):
            raise EvalError('no model of ' + n)
        return call

    # -------------------------------------------------------------- init
    def load_init(self):
        w = self.w
        path = self.repo + '/init.cora'
        p = Package(INIT, path)
        self.packages[INIT] = p
        boot = S('cora/init#macroexpand-boot')
        later = []
        for f in read_file(path):
            try:
                b = w.g.get(boot)
                x = apply_fn(b, (f,)) if b is not None else w.boot_expand(f)
                p.forms.append((x, line_of(f)))
                # The file is compiled as a whole by the expander of the image
                # that exists before: a new definition of the expander must not
                # be used on the forms after it.
                if S('macroexpand') in w.g and self.defined(x) is S('macroexpand'):
                    later.append(x)
                    continue
                w.eval(x)
            except EvalError as e:
                p.errors.append((getattr(f, 'line', 0), str(e)))
        for x in later:
            w.eval(x)
        # what the package exports
        v = w.g.get(S(INIT + '#*ns-export*'), NIL)
        p.exports = [s.name for s in to_list(v) if isinstance(s, Sym)]
        # the compiled file goes through the expander's last stage too: names
        # are resolved with the empty package, and (def x v) becomes (set 'x v)
        parse = w.g.get(S('cora/init#parse'))
        out = []
        for x, line in p.forms:
            try:
                out.append((apply_fn(parse, (NIL, '', NIL, x)), line))
            except EvalError as e:
                p.errors.append((line, 'name resolution: ' + str(e)))
        p.forms = out

    @staticmethod
    def defined(x):
        if isinstance(x, Pair) and isinstance(x.cdr, Pair):
            if x.car is S('def'):
                return x.cdr.car
            if x.car is S('set') and isinstance(x.cdr.car, Pair) and x.cdr.car.car is S('quote'):
                return x.cdr.car.cdr.car
        return None

    # -------------------------------------------------------------- packages
    def c_package(self, name):
        ops = self.names.get(name)
        if ops is None:
            return None
        p = Package(name, None)
        p.exports = list(ops)
        w = self.w
        for n, ar in ops.items():
            s = S(name + '#' + n)
            if s not in w.g:
                w.g[s] = Fn(max(ar, 0), self.opaque(n), (), n)
        w.g[S(name + '#*ns-export*')] = lst(*[S(n) for n in ops])
        return p

    def file_of(self, name):
        if name.startswith('cora/'):
            f = os.path.join(self.repo, name[5:] + '.cora')
            if os.path.exists(f):
                return f
        return None

    def load(self, name):
        if name in self.packages:
            return self.packages[name]
        f = self.file_of(name)
        if f is None:
            p = self.c_package(name)
            self.packages[name] = p
            return p
        p = self.packages[name] = Package(name, f)
        self.load_file(p, f)
        return p

    def load_file(self, p, f):
        w = self.w
        forms = read_file(f)
        sexp = forms[0] if len(forms) == 1 else Pair(S('begin'), lst(*forms), 1)
        p.raw = sexp
        body = sexp
        if isinstance(body, Pair) and body.car is S('package'):
            body = body.cdr.cdr
        for x in to_list(body):
            if isinstance(x, Pair) and x.car is S('import') and isinstance(x.cdr, Pair) and isinstance(x.cdr.car, str):
                p.imports.append(x.cdr.car)
            elif isinstance(x, Pair) and x.car is S('export'):
                p.exports += [s.name for s in to_list(x.cdr) if isinstance(s, Sym)]
            elif x is not S('begin'):
                break
        for i in p.imports:
            q = self.load(i)
            if q is None:
                p.errors.append((1, 'imports %s, which does not exist' % i))
        # as the compiler: expand the complete text, then run it
        try:
            x = w.expand(sexp)
        except EvalError as e:
            p.errors.append((getattr(sexp, 'line', 0), 'macro expansion: ' + str(e)))
            return
        self.flatten(x, p.forms)
        # the expander makes new pairs: take the lines from the text
        import re
        lines = {}
        for i, l in enumerate(open(f, errors='replace').read().split('\n')):
            m = re.match(r"\s*\((?:defun|func|def|set|defmacro)\s+'?(\S+)", l)
            if m:
                lines.setdefault(m.group(1), i + 1)
        for i, (x, line) in enumerate(p.forms):
            d = self.defined(x)
            if isinstance(d, Sym):
                p.forms[i] = (x, lines.get(d.name.split('#', 1)[-1], lines.get(d.name, line)))
        for form, line in p.forms:
            try:
                w.eval(form)
            except EvalError as e:
                # a definition whose value has no model
                if self.is_set(form):
                    w.g[form.cdr.car.cdr.car] = Fn(0, self.opaque('?'), (), '?')
                p.notes = getattr(p, 'notes', []) + [(line, str(e))]

    def is_set(self, x):
        return (isinstance(x, Pair) and x.car is S('set') and isinstance(x.cdr, Pair) and isinstance(x.cdr.car, Pair)
                and x.cdr.car.car is S('quote') and isinstance(x.cdr.car.cdr.car, Sym))

    def flatten(self, x, out):
        """(do a (do b c)) -> the forms in order."""
        while isinstance(x, Pair) and x.car is S('do'):
            a, b = to_list(x.cdr)[:2]
            self.flatten(a, out)
            x = b
        out.append((x, line_of(x, 0) or deepest(x)))


def line_of(x, depth=0):
    if isinstance(x, Pair):
        if x.line:
            return x.line
        if depth < 12:
            for y in to_list(x):
                n = line_of(y, depth + 1)
                if n:
                    return n
    return 0


def deepest(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Pair):
            if y.line:
                return y.line
            st.append(y.cdr)
            st.append(y.car)
    return 0


def load_program(repo, names):
    def go():
        P = Program(repo, names)
        # the program itself starts with these
        for n in ('cora/lib/toc', 'cora/lib/eval'):
            P.load(n)
        # the compiler is compiled by itself: its own macros are there
        p = P.packages.pop('cora/lib/toc')
        P.load('cora/lib/toc')
        for f in sorted(glob.glob(repo + '/lib/*.cora')):
            P.load('cora/lib/' + os.path.basename(f)[:-5])
        return P
    return deep(go)


# ---------------------------------------------------------------- names
def names_of(results):
    """{package: {operation: arity}} from rule NAMES; '-' are the built-ins."""
    names = {}
    for g, l in results['NAMES']['samples'].items():
        for x in l:
            kind, ar, fn, pkg, nm = x.split(' ', 4)
            if kind not in ('set', 'api', 'table'):
                continue
            if kind == 'set':
                p = '-'
            elif g == 'lib/md4c':
                p = 'cora/lib/md4c/include'
            else:
                p = 'cora/' + g
            names.setdefault(p, {})[nm] = int(ar)
    return names


_cache = {}


def program(repo, results):
    if repo not in _cache:
        _cache[repo] = load_program(repo, names_of(results))
    return _cache[repo]


def result():
    return {'violations': [], 'counts': {}, 'samples': {}, 'broken': [], 'controls': {}}


def quoted_symbol(x):
    """The symbol s of the expression (quote s)."""
    if isinstance(x, Pair) and x.car is S('quote') and isinstance(x.cdr, Pair) and isinstance(x.cdr.car, Sym):
        return x.cdr.car
    return None
