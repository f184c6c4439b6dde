#!/usr/bin/env python3
"""Runs the static checks of one property (or several) against /repo's current source.

  check.py PROP [--tier quick|thorough] [-v]

Exit 0: rule holds (known findings are printed); 1: VIOLATION; 2: the analysis
could not be carried out (an anchor vanished, a source does not parse, ...).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CORA_REPO', '/repo')
sys.path.insert(0, VERIF)
from rules.table import RULES, level_of  # noqa: E402

JOBS = os.cpu_count() or 4


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------ analyser
def build_analyser():
    """Compiles analyzer/*.cpp when the stored digest differs."""
    src = sorted(glob.glob(VERIF + '/analyzer/*.cpp') + glob.glob(VERIF + '/analyzer/*.h'))
    out = VERIF + '/build'
    os.makedirs(out + '/obj', exist_ok=True)
    hdr = b''.join(open(s, 'rb').read() for s in src if s.endswith('.h'))
    exe = out + '/coran'
    flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    flags = [f for f in flags if f not in ('-fno-exceptions',)]
    ld = sh(['llvm-config-18', '--ldflags', '--libs', '--link-shared']).stdout.split()
    objs, todo = [], []
    for s in src:
        if not s.endswith('.cpp'):
            continue
        h = hashlib.sha256(hdr + open(s, 'rb').read() + ' '.join(flags).encode()).hexdigest()[:20]
        o = f'{out}/obj/{os.path.basename(s)[:-4]}-{h}.o'
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))

    def cc(p):
        s, o = p
        tmp = f'{o}.{os.getpid()}'
        r = sh(['clang++', '-O1', '-g0', '-w', *flags, '-c', s, '-o', tmp])
        if r.returncode:
            raise Broken('analyser does not compile: ' + r.stdout[-3000:])
        os.rename(tmp, o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(cc, todo))
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()
    stamp = out + '/coran.key'
    if not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != key:
        tmp = f'{exe}.{os.getpid()}'
        r = sh(['clang++', *objs, *ld, '-o', tmp])
        if r.returncode:
            raise Broken('analyser does not link: ' + r.stdout[-3000:])
        os.rename(tmp, exe)
        open(stamp, 'w').write(key)
        keep = set(objs)
        for o in glob.glob(out + '/obj/*.o'):
            if o not in keep and time.time() - os.path.getmtime(o) > 3600:
                os.unlink(o)
    return exe


# ------------------------------------------------------------ sources
def included_c(files):
    inc = set()
    for f in files:
        for m in re.finditer(r'^\s*#\s*include\s+"([^"]+\.c)"', open(f, errors='replace').read(), re.M):
            inc.add(os.path.normpath(os.path.join(os.path.dirname(f), m.group(1))))
    return inc


def units():
    """(group, file): group 'core' or the name of a library module."""
    core = [f for f in sorted(glob.glob(REPO + '/src/*.c'))
            if not re.search(r'(_test|/for_test)\.c$', f)]
    libs = sorted(glob.glob(REPO + '/lib/*.c')) + sorted(glob.glob(REPO + '/lib/toc/*.c'))
    inc = included_c(core + libs)
    res = [('core', f) for f in core if f not in inc]
    res.append(('init', REPO + '/init.c'))
    for f in libs:
        if f in inc:
            continue
        n = os.path.basename(f)[:-2]
        res.append(('lib/toc/' + n if '/toc/' in f else 'lib/' + n, f))
    for f in sorted(glob.glob(REPO + '/lib/md4c/*.c')):
        res.append(('lib/md4c', f))
    res.append(('main', REPO + '/main.c'))
    return res


CFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-g', '-fno-discard-value-names', '-w', '-std=gnu17']


def compile_bc(work, extra_mods=(), defines=()):
    jobs = []
    groups = {}
    for g, f in list(units()) + list(extra_mods):
        if not os.path.exists(f):
            raise Broken('source file missing: ' + f)
        bc = os.path.join(work, f.replace('/', '_') + '.bc')
        groups.setdefault(g, []).append(bc)
        jobs.append((g, f, bc))

    def cc(j):
        g, f, bc = j
        r = sh(['clang', *CFLAGS, *defines, '-I' + REPO + '/src', '-I' + REPO + '/lib/md4c', '-I' + REPO + '/lib',
                '-DCORA_SRC_DIR="/x"', '-emit-llvm', '-c', f, '-o', bc], cwd=REPO)
        return g, f, r
    with ThreadPoolExecutor(JOBS) as ex:
        for g, f, r in ex.map(cc, jobs):
            if r.returncode:
                if g.startswith(('ctl', 'spec')):
                    groups.pop(g, None)
                    print('note: control %s does not compile against this tree' % f)
                    continue
                raise Broken('does not compile with clang: %s\n%s' % (f, r.stdout[-2000:]))
    return groups


def run_native(rules, tier, verbose=False):
    """Returns {rule: result} for rules of the IR analyser."""
    exe = build_analyser()
    work = tempfile.mkdtemp(prefix='coran.')
    res = {}
    try:
        controls = [('ctl/' + os.path.basename(f)[:-2], f) for f in sorted(glob.glob(VERIF + '/controls/*.c'))]
        if 'A01' in rules:
            controls += [('spec/api', f) for f in sorted(glob.glob(VERIF + '/spec/*.c'))]
        if 'K01' in rules:
            from rules import k01gen
            k01gen.generate(REPO, work + '/prims.c')
            controls.append(('spec/prims', work + '/prims.c'))
        variants = [('', [])]
        if tier == 'thorough':
            variants.append(('bootstrap', ['-D_BOOTSTRAP_TEST_']))
        for vn, defs in variants:
            w = os.path.join(work, vn or 'base')
            os.makedirs(w)
            groups = compile_bc(w, controls, defs)
            core = ['--core', *groups.pop('core')]
            def one(rule):
                args = list(core)
                for g, fs in groups.items():
                    # what is made for one rule is no part of the others' program
                    if {'spec/api': 'A01', 'spec/prims': 'K01'}.get(g, rule) == rule:
                        args += ['--mod', g, *fs]
                out = os.path.join(w, rule + '.json')
                return out, sh([exe, rule, out, *(['-v'] if verbose else []), *args])

            # one process per rule: a rule sees nothing another one left behind
            done = {}
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for out, r in ex.map(one, rules):
                    if verbose or r.returncode:
                        print(r.stdout[-20000:])
                    if r.returncode:
                        raise Broken('analyser failed (%d): %s' % (r.returncode, r.stdout[-2000:]))
                    done.update(json.load(open(out)))
            for k, v in done.items():
                if vn:
                    for x in v['violations']:
                        if not any(y['key'] == x['key'] for y in res[k]['violations']):
                            x['msg'] = f'[{vn} build] ' + x['msg']
                            res[k]['violations'].append(x)
                    res[k]['counts'].update({f'{vn}: {a}': b for a, b in v['counts'].items()})
                    res[k]['broken'] += v['broken']
                else:
                    res[k] = v
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res


# ------------------------------------------------------------ known findings
def known():
    p = VERIF + '/known-findings.txt'
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S.*?) \| (.*)$', l)
            if m:
                res.append(m.groups())
    return res


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args == ['--build'] or '--build' in sys.argv:
        build_analyser()
        return 0
    props = list(RULES) if args == ['all'] else args
    import importlib
    mods = {r: importlib.import_module('rules.' + r) for p in props for k, r in RULES[p]['rules'] if k == 'py'}
    native = sorted({r for p in props for k, r in RULES[p]['rules'] if k == 'ir'}
                    | {n for m in mods.values() for n in getattr(m, 'NEEDS', ())})
    rc = 0
    try:
        results = run_native(native, tier, verbose) if native else {}
    except Broken as e:
        print('ANALYSIS-BROKEN', e)
        return 2
    for p in props:
        viols, counts, samples, broken, ctl = [], {}, {}, [], {'expected': 0, 'seen': 0}
        for kind, r in RULES[p]['rules']:
            try:
                if kind == 'ir':
                    o = results[r]
                else:
                    o = mods[r].run(REPO, tier, results)
            except (Broken, SyntaxError, LookupError, OSError, ValueError, AttributeError, TypeError) as e:
                import traceback
                traceback.print_exc()
                broken.append('%s: %s' % (type(e).__name__, e))
                continue
            # positive and negative controls live in functions called ctl_bad_* / ctl_ok_*
            # (a control for one rule only is called ctl_bad_RULE_*)
            for v in o['violations']:
                m = re.search(r'ctl_(bad|ok)_\w+', v['key'])
                if not m:
                    viols.append(v)
            expected = o.get('controls')
            if expected:
                for name, ok in expected.items():
                    ctl['expected'] += 1
                    ctl['seen'] += bool(ok)
                    if not ok:
                        broken.append('positive control not reported: ' + name)
            if kind == 'ir':
                seen = ' '.join(v['key'] for v in o['violations'])
                for f in glob.glob(VERIF + '/controls/*.c'):
                    for name in set(re.findall(r'\b(ctl_(?:bad|ok)_%s_\w+)\s*\(' % r, open(f).read())):
                        ctl['expected'] += 1
                        hit = re.search(r'\b%s\b' % name, seen) is not None
                        if hit == name.startswith('ctl_bad'):
                            ctl['seen'] += 1
                        else:
                            broken.append('control %s %s' % (name, 'reported' if hit else 'not reported'))
            counts.update(o['counts'])
            samples.update(o['samples'])
            broken += o['broken']
        kn = [k for k in known() if k[0] == p]
        new = []
        for v in viols:
            hit = next((k for k in kn if k[1] == v['key']), None)
            if hit:
                v['known'] = True
            else:
                new.append(v)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        seenk = set()
        for v in viols:
            if v.get('known') and v['key'] not in seenk:
                seenk.add(v['key'])
                print(f"KNOWN-FINDING: property={p} {v['key']} at {v['where']}: {v['msg']}")
        lvl = level_of(p)
        obligations = RULES[p].get('obligations', [])
        n = sum(counts.get(c, 0) for c in obligations) or sum(counts.values())
        smp = [f'{k}: {s}' for k, v in samples.items() for s in v[:12]]
        ev = {
            'property': p, 'tier': tier, 'seed': seed, 'level': lvl,
            'coverage': {
                'explanation': RULES[p]['explain'],
                'rule': RULES[p]['explain'],
                'obligations': n, 'discharged': n - min(n, len(new)),
                'counts': counts, 'samples': smp[:60], 'controls': ctl,
                'units': len(units()),
                'checker_cmd': f'python3 bin/check.py {p} --tier {tier}',
                'known_findings': sorted(seenk),
            },
            'assumptions': RULES[p].get('assume', []),
            'violations': len(new), 'wall_s': round(time.time() - t0, 2),
        }
        json.dump(ev, open(f'{VERIF}/evidence/{p}.json', 'w'), indent=1)
        if new:
            rp = f'{VERIF}/evidence/{p}.violations.txt'
            with open(rp, 'w') as f:
                for v in new:
                    f.write(f"{v['rule']}: {v['key']}\n  at {v['where']}\n  {v['msg']}\n")
            for v in new[:40]:
                print(f"{v['rule']}: {v['key']} at {v['where']}: {v['msg']}")
            print(f'VIOLATION property={p} replay={rp}')
            rc = max(rc, 1) if rc != 2 else rc
            if rc == 2:
                rc = 1
            continue
        if broken:
            for b in broken:
                print(f'ANALYSIS-BROKEN property={p}', b)
            if rc == 0:
                rc = 2
            continue
        print(f"OK property={p} obligations={n} counts={json.dumps(counts)}")
    return rc


if __name__ == '__main__':
    sys.exit(main())
