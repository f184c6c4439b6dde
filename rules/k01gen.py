"""Witnesses for K01: one small C function per primitive and kind of argument,
written from the compiler's own table of primitives, whose result the optimiser
must reduce to the answer the language promises."""
import os
import subprocess
from rules.coralang import S, Pair, read_file, to_list

QUOTE, LIST = S('quote'), S('list')


def walk(p):
    if isinstance(p, Pair):
        yield p
        while isinstance(p, Pair):
            yield from walk(p.car)
            p = p.cdr


def unquote(x):
    return x.cdr.car if isinstance(x, Pair) and x.car is QUOTE else x


def table(path, name, how):
    """The primitives of the list the file binds to name: [(name, args, C name)]."""
    for top in read_file(path):
        for p in walk(top):
            if p.car is S(how) and isinstance(p.cdr, Pair) and unquote(p.cdr.car) is S(name):
                res = []
                for e in to_list(p.cdr.cdr.car)[1:]:
                    e = unquote(e)
                    l = to_list(e)
                    if l and l[0] is LIST:
                        l = l[1:]
                    if len(l) != 3 or not isinstance(l[1], int) or not isinstance(l[2], str):
                        return None
                    res.append((unquote(l[0]).name, l[1], l[2]))
                return res
    return None


def opening(path):
    """What the generator writes between the C name and the arguments."""
    res = {}
    for top in read_file(path):
        for p in walk(top):
            c = p.car
            if isinstance(c, Pair) and c.car is S('=') and len(to_list(c)) == 3 and isinstance(p.cdr, Pair):
                q, g = to_list(c)[2], p.cdr.car
                if isinstance(q, Pair) and q.car is QUOTE and isinstance(g, Pair) and g.car is S('generate-str') \
                        and len(to_list(g)) == 3 and isinstance(to_list(g)[2], str) and to_list(g)[2].startswith('('):
                    res[unquote(q).name] = to_list(g)[2]
    return res


def call(p, op, args):
    return p[2] + op.get(p[0], '(') + ', '.join(args) + ')'


HEAD = '#include "types.h"\n#include "runtime.h"\n#define P48 0xFFFFFFFFFFFFULL\n'


def compiles(repo, text, d):
    f = os.path.join(d, 'p.c')
    open(f, 'w').write(text)
    r = subprocess.run(['clang', '-fsyntax-only', '-w', '-Werror=implicit-function-declaration', '-Werror=int-conversion',
                        '-Werror=incompatible-pointer-types', '-std=gnu17', '-I' + repo + '/src', f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=repo)
    return r.returncode == 0, r.stdout


def tag(t, th=None):
    def f(v, p):
        s = 'Obj %s = OBJ_MASK | ((uint64_t)%s << 48) | (%s & P48);' % (v, t, p)
        if th:
            s += ' if (((scmHead *)ptr(%s))->type != %s) __builtin_unreachable();' % (v, th)
        return s
    return f


def const(c):
    return lambda v, p: 'Obj %s = %s;' % (v, c)


def number(bit):
    return lambda v, p: 'Obj %s = %s & ~(1ULL << %d);' % (v, p, bit)


# the bits of the mask; one of them is clear in every number
KINDS = {'number%d' % b: number(b) for b in range(51, 63)}
KINDS.update({'nil': const('Nil'), 'true': const('True'), 'false': const('False'), 'undef': const('Undef'),
              'handle': tag('TAG_COBJ'), 'symbol': tag('TAG_SYMBOL'), 'string': tag('TAG_BYTES'), 'pair': tag('TAG_CONS'),
              'function': tag('TAG_NATIVE'), 'vector': tag('TAG_PTR', 'scmHeadVector'),
              'gensym': tag('TAG_PTR', 'scmHeadSymbol'), 'continuation': tag('TAG_PTR', 'scmHeadContinuation')})
isnum = lambda k: k.startswith('number')
TESTS = {'cons?': lambda k: k == 'pair', 'symbol?': lambda k: k in ('symbol', 'gensym'), 'integer?': isnum,
         'string?': lambda k: k == 'string'}
# operations of the runtime under the same regime
NATIVE = {'number?': isnum}
NUMERIC = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '>': 'gt'}


WORDS = {'+': 'plus', '-': 'minus', '*': 'times', '/': 'divide', '<': 'less', '>': 'greater', '=': 'equals', '?': '', ' ': '_'}


def word(s):
    return ''.join(WORDS.get(c, c) for c in s)


def program(prims, op):
    """C text and what each function stands for: name -> description."""
    out = [HEAD]
    n = [0]

    def fn(want, what, body, expr):
        out.append('Obj k01_%d_%s_%s(Cora *co, uint64_t p, uint64_t q) { %s return %s; }\n' % (n[0], word(what), want, body, expr))
        n[0] += 1
    for p in prims:
        name, args, _ = p
        if name in TESTS and args == 1:
            for k, mk in KINDS.items():
                fn('T' if TESTS[name](k) else 'F', '%s of a %s' % (name, k), mk('x', 'p'), call(p, op, ['x']))
        elif name == 'not' and args == 1:
            for k, mk in KINDS.items():
                fn({'true': 'F', 'false': 'T'}.get(k, 'N'), 'not of %s' % k, mk('x', 'p'), call(p, op, ['x']))
        elif name in ('car', 'cdr') and args == 1:
            for k, mk in KINDS.items():
                if k != 'pair':
                    fn('N', '%s of a %s' % (name, k), mk('x', 'p'), call(p, op, ['x']))
            fn(name, name + ' of a pair', KINDS['pair']('x', 'p'), call(p, op, ['x']))
        elif name in NUMERIC and args == 2:
            for k, mk in KINDS.items():
                if not isnum(k):
                    fn('N', '%s of a %s and something' % (name, k), mk('x', 'p') + ' Obj y = q;', call(p, op, ['x', 'y']))
                    fn('N', '%s of something and a %s' % (name, k), mk('x', 'p') + ' Obj y = q;', call(p, op, ['y', 'x']))
            fn(NUMERIC[name], name + ' of two numbers', 'Obj x = p, y = q;', call(p, op, ['x', 'y']))
        elif name == '=' and args == 2:
            for k, mk in KINDS.items():
                fn('T', 'a %s = itself' % k, mk('x', 'p'), call(p, op, ['x', 'x']))
                for j, mj in KINDS.items():
                    ptr = ('vector', 'gensym', 'continuation')
                    if j != k and not (isnum(j) and isnum(k)) and not (j in ptr and k in ptr):
                        fn('F', 'a %s = a %s' % (k, j), mk('x', 'p') + mj('y', 'q'), call(p, op, ['x', 'y']))
        elif name == 'cons' and args == 2:
            fn('cons', 'cons of two values', 'Obj x = p, y = q;', call(p, op, ['x', 'y']))
        elif name == 'set' and args == 2:
            fn('second', 'set of a name and a value', 'Obj x = p, y = q;', call(p, op, ['x', 'y']))
    for name, test in NATIVE.items():
        c = name.replace('?', '')
        for k, mk in KINDS.items():
            out.append('extern void k01n_%s(Cora *, int, Obj *);\n'
                       'void k01_%d_%s_R%s(Cora *co, uint64_t p, uint64_t q) { Obj R[2]; %s R[0] = q; R[1] = x; k01n_%s(co, 0, R); }\n'
                       % (c, n[0], word('%s of a %s' % (name, k)), 'T' if test(k) else 'F', mk('x', 'p'), c))
            n[0] += 1
    return ''.join(out)


def generate(repo, path):
    import tempfile
    prims = table(repo + '/lib/toc.cora', '*builtin-prims*', 'def') or []
    op = opening(repo + '/lib/toc.cora')
    good = []
    with tempfile.TemporaryDirectory(prefix='k01.') as d:
        for p in prims:
            if compiles(repo, witness(p, op), d)[0]:
                good.append(p)
    open(path, 'w').write(program(good, op))


def witness(p, op):
    a = ['abcdefgh'[i] for i in range(p[1])]
    return HEAD + 'Obj w(Cora *co%s) { return %s; }\n' % (''.join(', Obj ' + x for x in a), call(p, op, a))
