"""A01 (declarations): every function and constant of src/cora.h is defined with
the declared type.  The witness is a translation unit that contains the header
and the definition: it does not compile when they disagree."""
import glob
import os
import re
import subprocess
import tempfile
from rules.coraforms import result


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def run(repo, tier, results):
    R = result()
    hdr = repo + '/src/cora.h'
    inc = ['-I' + repo + '/src', '-I' + repo + '/lib']
    with tempfile.TemporaryDirectory(prefix='a01.') as d:
        # what the header declares
        open(d + '/h.c', 'w').write('#include "cora.h"\n')
        r = sh(['clang', '-fsyntax-only', '-w', *inc, '-Xclang', '-ast-dump', '-fno-color-diagnostics', d + '/h.c'])
        decls, file_now = {}, ''
        depth0 = re.compile(r"^[|`]-(FunctionDecl|VarDecl) 0x\w+ (?:prev 0x\w+ )?<([^>]*)> (\S+) (?:implicit )?(?:used )?(\w+) '([^']*)'")
        cur = ''
        for l in r.stdout.split('\n'):
            m2 = depth0.match(l)
            for f in re.findall(r'[< ](/[^:<> ,]*):\d+', l[:m2.start(4)] if m2 else l):
                cur = f
            if m2 and os.path.basename(cur) == 'cora.h':
                decls[m2.group(4)] = (m2.group(1), m2.group(5))
        fns = [n for n, (k, _) in decls.items() if k == 'FunctionDecl']
        consts = [n for n, (k, _) in decls.items() if k == 'VarDecl']
        # definitions
        defined = {}
        srcs = [f for f in sorted(glob.glob(repo + '/src/*.c')) if not re.search(r'(_test|/for_test)\.c$', f)]
        included = set()
        for f in srcs:
            for m in re.finditer(r'^\s*#\s*include\s+"([^"]+\.c)"', open(f, errors='replace').read(), re.M):
                included.add(os.path.join(os.path.dirname(f), m.group(1)))
        nunits = 0
        for f in srcs:
            if f in included:
                continue
            b = os.path.basename(f)
            o = d + '/' + b + '.o'
            r = sh(['clang', '-w', '-O0', *inc, '-DCORA_SRC_DIR="/x"', '-c', f, '-o', o], cwd=repo)
            if r.returncode:
                R['broken'].append('%s does not compile: %s' % (f, r.stdout[-500:]))
                continue
            here = set()
            for l in sh(['nm', '--defined-only', '-g', o]).stdout.split('\n'):
                p = l.split()
                if len(p) == 3:
                    here.add(p[2])
                    if p[2] in decls:
                        defined[p[2]] = b
            if not (here & set(decls)):
                continue
            nunits += 1
            w = d + '/w_' + b
            open(w, 'w').write('#include "cora.h"\n#include "%s"\n' % f)
            r = sh(['clang', '-fsyntax-only', '-w', *inc, '-DCORA_IMPLEMENTATION', '-DCORA_SRC_DIR="/x"', w], cwd=repo)
            if r.returncode:
                bad = re.findall(r"error: conflicting types for '(\w+)'", r.stdout)
                for n in bad:
                    R['violations'].append({'rule': 'A01', 'key': n + ' has another type', 'where': 'src/' + b,
                                            'msg': '%s is defined with other parameters or result than cora.h declares: %s'
                                            % (n, decls.get(n, ('', '?'))[1])})
                if not bad:
                    R['broken'].append('cora.h together with %s does not compile: %s' % (b, r.stdout[-800:]))
        # the constants hold what they are called
        for n in fns + consts:
            if n not in defined:
                R['violations'].append({'rule': 'A01', 'key': n + ' is not defined', 'where': 'src/cora.h',
                                        'msg': '%s is declared in cora.h, no source of the library defines it' % n})
        # every declared function is judged by its reference or listed as part of the machine
        ref = open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/spec/api_ref.c').read()
        have = set(re.findall(r'\bREF\((\w+)\)\(', ref))
        machine = {'coraInit', 'coraCall', 'coraReturn', 'coraRun', 'coraRegisterAPI'}
        R['samples']['declared without a reference'] = sorted(n for n in fns if n not in have | machine)
        R['samples']['part of the machine (V01, V02, V06)'] = sorted(machine & set(fns))
    R['counts'] = {'declared functions': len(fns), 'declared constants': len(consts), 'units compiled with the header': nunits}
    if len(fns) < 25 or len(consts) < 3:
        R['broken'].append('only %d functions, %d constants found in cora.h' % (len(fns), len(consts)))
    return R
