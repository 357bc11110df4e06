#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--keep] [--only VARIANT]

Decides one property of /repo with CBMC over /repo's current sources:
compile to goto programs, link with the harness and the environment model,
bounded model checking with unwinding assertions, and - for a counterexample -
replay of the solver's input values against a gcc/ASan/UBSan build of the same
sources with the real GLib.  exit 0: every obligation discharged; exit 1 and a
VIOLATION line: a replayed counterexample; exit 2: no answer.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, struct, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'preload-src', 'src')
DIRS = ['algorithm', 'handling', 'monitoring', 'config', 'daemon', 'utils']
sys.path.insert(0, HERE)
from checks import CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Inconclusive(Exception):
    pass

GLIB = sh(['pkg-config', '--cflags', 'glib-2.0']).stdout.split()
GLIBS = sh(['pkg-config', '--libs', 'glib-2.0']).stdout.split()
MK_DEFS = ['-D_GNU_SOURCE', '-DVERSION="0.6.4"', '-DPACKAGE="preload"', '-DPACKAGE_STRING="preload 0.6.4"',
           '-DPACKAGE_NAME="preload"', '-DPACKAGE_BUGREPORT="none"', '-DSYSCONFDIR="/etc"',
           '-DPKGLOCALSTATEDIR="/var/lib/preload"', '-DLOGDIR="/var/log"']

def mk_defs():
    """the -D flags of /repo's Makefile (VERSION etc.), so that the encoding has the build's values"""
    out = list(MK_DEFS)
    try:
        t = open(os.path.join(REPO, 'preload-src', 'Makefile')).read()
        m = re.search(r'^\s*(?:PRELOAD_)?VERSION\s*[:?]?=\s*([\w.]+)', t, re.M)
        if m:
            out[1] = '-DVERSION="%s"' % m.group(1)
            out[3] = '-DPACKAGE_STRING="preload %s"' % m.group(1)
    except OSError:
        pass
    return out

def repo_sources():
    """the .c files the daemon is built from (src/daemon/spy.c is not in the Makefile)"""
    res = []
    mk = ''
    try:
        mk = open(os.path.join(REPO, 'preload-src', 'Makefile')).read()
    except OSError:
        pass
    for d in DIRS:
        p = os.path.join(SRC, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith('.c'):
                if d == 'daemon' and f != 'preload.c' and (d + '/' + f) not in mk:
                    continue
                res.append(os.path.join(p, f))
    return res

INC = lambda: ['-I' + os.path.join(SRC, d) for d in DIRS] + ['-I' + SRC]

class Build:
    def __init__(self, work):
        self.work = work
        self.objs = {}
        self.log = []

    def run(self, cmd, what):
        r = sh(cmd)
        if r.returncode:
            raise Inconclusive('%s failed: %s\n%s' % (what, ' '.join(cmd), (r.stdout + r.stderr)[-3000:]))
        return r

    def goto(self, src, defs, tag):
        out = os.path.join(self.work, tag + '.gb')
        self.run(['goto-cc', '-std=gnu11', '-c', '-DVP_CBMC'] + mk_defs() + GLIB + INC() +
                 ['-I' + HERE + '/model', '-I' + HERE + '/harness', '-include', 'redirect.h', '-w'] + defs + [src, '-o', out], 'goto-cc')
        return out

    def goto_repo(self, src, defs, tag):
        """as goto, with a generated dispatcher appended: direct calls of the functions whose address this source takes"""
        first = self.goto(src, defs, tag + '_0')
        text = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\\\.|[^"\\\\\n])*"', ' ', open(src, errors='replace').read(), flags=re.S)
        lines, seen = [], set()
        for l in sh(['goto-instrument', '--list-symbols', first]).stdout.split('\n'):
            m = re.match(r'(\w+) ([^()]*) \(([^()]*)\)$', l)
            if not m or m.group(1).startswith(('g_', 'vp_', '__')) or m.group(1) in seen:
                continue
            name, ret, ps = m.groups()
            if '...' in ps or not re.search(r'\b%s\b(?!\s*\()' % name, text):
                continue
            k = 0 if ps.strip() in ('', 'void') else ps.count(',') + 1
            if k > 3:
                continue
            seen.add(name)
            call = '%s (%s)' % (name, ', '.join(['(void *) a', '(void *) b', '(void *) c'][:k]))
            body = call + ';' if ret.strip() == 'void' else '*ret = (long) %s;' % call
            lines.append('  if (f == (void *) %s) { __CPROVER_assert (n >= %d, "VPBOUND callback with more arguments than the caller passes"); %s return 1; }' % (name, k, body))
        w = os.path.join(self.work, tag + '_w.c')
        with open(w, 'w') as f:
            f.write('#line 1 "%s"\n#include "%s"\n#line 1 "vp_disp"\n#undef main\n_Bool vp_disp_%s (void *f, int n, void *a, void *b, void *c, long *ret)\n{\n%s\n  return 0;\n}\n' % (src, src, tag, '\n'.join(lines)))
        return self.goto(w, defs + ['-I' + os.path.dirname(src)], tag)

    def disp(self, tags):
        w = os.path.join(self.work, 'disp.c')
        with open(w, 'w') as f:
            for t in tags:
                f.write('_Bool vp_disp_%s (void *f, int n, void *a, void *b, void *c, long *ret);\n' % t)
            f.write('_Bool vp_disp (void *f, int n, void *a, void *b, void *c, long *ret)\n{\n')
            for t in tags:
                f.write('  if (vp_disp_%s (f, n, a, b, c, ret)) return 1;\n' % t)
            f.write('  return 0;\n}\n')
        return self.goto(w, [], 'disp')

    def native(self, src, defs, tag, extra=()):
        out = os.path.join(self.work, tag + '.o')
        self.run(['gcc', '-std=gnu11', '-c', '-g', '-O0', '-w', '-DVP_NATIVE', '-fsanitize=address,undefined',
                  '-fno-sanitize-recover=all', '-fno-sanitize=float-cast-overflow,alignment'] + mk_defs() + GLIB + INC() +
                 ['-I' + HERE + '/model', '-I' + HERE + '/harness', '-include', 'redirect.h'] + list(extra) + defs + [src, '-o', out], 'gcc')
        return out

def srctag(s):
    return 'r_' + os.path.relpath(s, SRC).replace('/', '_')[:-2]

def is_main(s):
    return s.endswith('daemon/preload.c')

def build_goto(b, var, ex):
    defs = var.get('defs', [])
    srcs = [s for s in repo_sources()]
    # the sources see no harness option, so their goto programs are shared by the variants
    def one(s):
        t = srctag(s)
        if t not in b.objs:
            b.objs[t] = b.goto_repo(s, ['-Dmain=vp_program_main'] if is_main(s) else [], t)
        return b.objs[t]
    key = hashlib.md5(repr((var['harness'], defs)).encode()).hexdigest()[:10]
    fs = [ex.submit(one, s) for s in srcs]
    own = defs + ['-DVP_NO_REDIRECT']
    fh = ex.submit(b.goto, os.path.join(HERE, 'harness', var['harness']), own, 'h_' + key)
    fm = ex.submit(b.goto, os.path.join(HERE, 'model', 'vp_cbmc.c'), own, 'm_' + key)
    fe = ex.submit(b.goto, os.path.join(HERE, 'model', 'env_default.c'), own, 'e_' + key)
    robj = [f.result() for f in fs]
    if 'disp' not in b.objs:
        b.objs['disp'] = b.disp([srctag(s) for s in srcs])
    robj.append(b.objs['disp'])
    hobj, mobj, eobj = fh.result(), fm.result(), fe.result()
    ov = var.get('override', [])
    if ov:
        def strip(o):
            out = o[:-3] + '_' + key + '.gb'
            cmd = ['goto-instrument']
            syms = sh(['goto-instrument', '--list-symbols', o]).stdout
            have = [f for f in ov if re.search(r'^%s\b' % re.escape(f), syms, re.M)]
            if not have:
                return o
            for f in have:
                cmd += ['--remove-function-body', f]
            b.run(cmd + [o, out], 'goto-instrument')
            return out
        robj = list(ex.map(strip, robj))
    a = os.path.join(b.work, 'a_%s.gb' % key)
    b.run(['goto-cc', '-o', a, hobj] + robj + [mobj, eobj], 'goto-cc link')
    # drop what the harness cannot reach, resolve function pointers
    p = os.path.join(b.work, 'p_%s.gb' % key)
    b.run(['goto-instrument', '--remove-function-pointers', '--no-pointer-check', a, p], 'goto-instrument')
    q = os.path.join(b.work, 'q_%s.gb' % key)
    b.run(['goto-instrument', '--drop-unused-functions', p, q], 'goto-instrument')
    return q

LIBC_OK = set('''malloc free calloc memcpy memset memmove memcmp __builtin_expect __errno_location alloca __builtin_alloca
__builtin___memcpy_chk __builtin___memset_chk fabs isnan __isnan __isnanf isinf __isinf floor ceil abs labs
__builtin_va_start __builtin_va_end __CPROVER_allocate __CPROVER_input realloc __builtin_fabs __builtin_isnan
__builtin_unreachable __fpclassify __signbit __builtin_memcpy __builtin_memset round trunc fmod copysign __builtin_fmin __builtin_fmax llabs __fpclassifyl __isinff fabsl __builtin_isinf_sign __builtin_isfinite __finite finite __builtin_trap nan __builtin_nan __builtin_inf __builtin_huge_val lround rint nearbyint'''.split())

def expand_loops(gb, entries):
    """'f:N' -> every loop of function f; 'f.K:N' as is; entries for absent loops are dropped"""
    if not entries:
        return []
    have = re.findall(r'^Loop (\S+):', sh(['goto-instrument', '--show-loops', gb]).stdout, re.M)
    out = {}
    for e in entries:
        f, n = e.rsplit(':', 1)
        for h in have:
            if h == f or h.rsplit('.', 1)[0] == f:
                out[h] = n
    return ['%s:%s' % kv for kv in sorted(out.items())]

def cbmc(b, gb, var, extra, timeout, extra_us=None):
    cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--no-malloc-may-fail', '--unwinding-assertions',
           '--no-signed-overflow-check', '--no-undefined-shift-check', '--no-div-by-zero-check',
           '--unwind', str(var.get('unwind', 8)),
           '--max-field-sensitivity-array-size', str(var.get('fs', 1100)),
           '--object-bits', str(var.get('object_bits', 10)), '--slice-formula', '--drop-unused-functions']
    if var.get('no_ptr'):
        cmd += ['--no-pointer-check', '--no-bounds-check', '--no-pointer-primitive-check']
    else:
        cmd += ['--no-pointer-primitive-check']
    us = dict(e.rsplit(':', 1) for e in expand_loops(gb, var.get('unwindset', [])))
    us.update({k: str(n) for k, n in (extra_us or {}).items()})
    us = ['%s:%s' % kv for kv in sorted(us.items())]
    if us:
        cmd += ['--unwindset', ','.join(us)]
    cmd += var.get('cbmc', [])
    cmd += extra
    t0 = time.time()
    try:
        r = sh(['bash', '-c', 'ulimit -v %d; exec "$@"' % (var.get('mem_gb', 20) << 20), 'x'] + cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive('cbmc did not finish within %d s' % timeout)
    try:
        js = json.loads(r.stdout)
    except ValueError:
        raise Inconclusive('cbmc output not understood (exit %d): %s' % (r.returncode, (r.stdout + r.stderr)[-2000:]))
    return js, time.time() - t0, cmd

def summarize(js):
    res, msgs = None, []
    for m in js:
        if 'result' in m:
            res = m['result']
        if 'messageText' in m:
            msgs.append((m.get('messageType'), m['messageText']))
    st = {'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'symex_s': 0.0, 'vccs': 0, 'vccs_left': 0, 'solver_calls': 0}
    for ty, t in msgs:
        m = re.search(r'(\d+) variables, (\d+) clauses', t)
        if m:
            st['vars'] = max(st['vars'], int(m.group(1))); st['clauses'] = max(st['clauses'], int(m.group(2)))
        m = re.search(r'Runtime Solver: ([\d.e+-]+)s', t)
        if m:
            st['solver_s'] += float(m.group(1)); st['solver_calls'] += 1
        m = re.search(r'Runtime Symex: ([\d.e+-]+)s', t)
        if m:
            st['symex_s'] += float(m.group(1))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        if m:
            st['vccs'], st['vccs_left'] = int(m.group(1)), int(m.group(2))
    return res, msgs, st

def bits_of(val):
    """value object of a CBMC trace -> 64 bit pattern as hex"""
    if 'binary' in val:
        bs = val['binary']
        n = int(bs, 2)
        w = len(bs)
        if w < 64 and 'unsigned' not in val.get('type', '') and '_Bool' not in val.get('type', '') and 'float' not in val.get('name', '') and bs[0] == '1' and val.get('type', '') in ('signed int', 'int', 'signed long int', 'signed long long int', 'long long int', 'long int'):
            n -= 1 << w
        return '%x' % (n & (2**64 - 1))
    raise Inconclusive('trace value without bit pattern: %r' % val)

def trace_inputs(js, prop):
    for m in js:
        for r in m.get('result', []) if 'result' in m else []:
            if r.get('property') == prop and r.get('trace'):
                return [bits_of(v) for st in r['trace'] if st.get('stepType') == 'input' for v in st['values']], r['trace']
    return None, None

def build_native(b, var, ex):
    defs = var.get('defs', [])
    key = hashlib.md5(repr((var['harness'], defs, 'n')).encode()).hexdigest()[:10]
    def one(s):
        t = 'n' + srctag(s)
        if t not in b.objs:
            b.objs[t] = b.native(s, ['-Dmain=vp_program_main'] if is_main(s) else [], t)
        return b.objs[t]
    fs = [ex.submit(one, s) for s in repo_sources()]
    own = defs + ['-DVP_NO_REDIRECT']
    fh = ex.submit(b.native, os.path.join(HERE, 'harness', var['harness']), own, 'nh_' + key)
    fm = ex.submit(b.native, os.path.join(HERE, 'model', 'vp_native.c'), own, 'nm_' + key)
    fe = ex.submit(b.native, os.path.join(HERE, 'model', 'env_default.c'), own, 'ne_' + key)
    robj = [f.result() for f in fs]
    hm = [fh.result(), fm.result()]
    ov = var.get('override', [])
    if ov:
        def weaken(o):
            out = o[:-2] + '_' + key + '.o'
            cmd = ['objcopy'] + ['--weaken-symbol=' + f for f in ov] + [o, out]
            b.run(cmd, 'objcopy')
            return out
        robj = [weaken(o) for o in robj]
    exe = os.path.join(b.work, 'native_' + key)
    b.run(['gcc', '-fsanitize=address,undefined', '-o', exe] + hm + robj + [fe.result()] + GLIBS + ['-lm'], 'link')
    return exe

def replay(exe, args, work, timeout=60):
    env = {'PATH': os.environ.get('PATH', ''), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           'UBSAN_OPTIONS': 'print_stacktrace=0', 'G_SLICE': 'always-malloc', 'LC_ALL': 'C'}
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=work, env=env)
        out = (r.stdout + r.stderr).decode('utf-8', 'replace')
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return 'hang', 'the program did not terminate within %d s' % timeout
    if rc == 66:
        return 'fail', (re.findall(r'VP_FAIL (.*)', out) or ['?'])[-1]
    if rc == 77:
        return 'assume', (re.findall(r'VP_ASSUME (.*)', out) or ['?'])[-1]
    if rc == 0:
        return 'pass', out[-400:]
    if rc == 99 or rc < 0 or rc == 1:
        m = re.search(r'(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*|ERROR:[^\n]*assertion[^\n]*|[^\n]*assertion failed[^\n]*)', out)
        return 'crash', (m.group(1) if m else 'exit %d: %s' % (rc, out[-300:]))
    return 'other', 'exit %d: %s' % (rc, out[-300:])

def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        # nothing is prebuilt: every check compiles /repo's current sources
        for t in (['cbmc', '--version'], ['goto-cc', '--version'], ['gcc', '--version'], ['pkg-config', '--modversion', 'glib-2.0']):
            print(' '.join(t), sh(t).stdout.split('\n')[0])
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    keep = '--keep' in a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'wall_s': 0, 'level': chk['level']}
    variants = [dict(chk.get('base', {}), **v) for v in chk['variants'] if (tier == 'thorough' or not v.get('thorough')) and not (tier == 'thorough' and v.get('quick_only'))]
    if only:
        variants = [dict(chk.get('base', {}), **v) for v in chk['variants'] if v['name'] == only]
        if not variants:
            print('no variant', only); return 2
    report, violations, problems = [], [], []
    b = Build(work)
    budget = chk.get('budget', {}).get(tier, 800 if tier == 'quick' else 3000)
    known = load_known(pid)
    knownhits = set()
    jobs = min(len(variants), chk.get('jobs', 4))
    try:
        with ThreadPoolExecutor(8) as ex, ThreadPoolExecutor(max(1, jobs)) as outer:
            # the sources first: shared
            list(ex.map(lambda s: b.objs.setdefault(srctag(s), b.goto_repo(s, ['-Dmain=vp_program_main'] if is_main(s) else [], srctag(s))), repo_sources()))
            b.objs['disp'] = b.disp([srctag(s) for s in repo_sources()])
            def do(v):
                try:
                    return run_variant(b, v, ex, max(30, budget - (time.time() - t0)), work, pid, known)
                except Inconclusive as e:
                    return {'name': v['name'], 'error': str(e)}
            for r in outer.map(do, variants):
                report.append(r)
                if r.get('error'):
                    problems.append('%s: %s' % (r['name'], r['error']))
                violations += r.get('violations', [])
                knownhits |= set(r.get('known', []))
    except Inconclusive as e:
        problems.append(str(e))
    finally:
        if keep:
            print('work directory kept:', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    ev['wall_s'] = round(time.time() - t0, 2)
    write_evidence(pid, chk, ev, report, problems, violations)
    for r in report:
        if only or '-v' in a or r.get('error'):
            print(json.dumps({k: v for k, v in r.items() if k not in ('functions',)}, indent=1)[:6000])
    for k in sorted(knownhits):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violations:
        for v in violations:
            print('%s: %s: %s' % (pid, v['assertion'], v['replayed']))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if problems:
        for p in problems:
            print('NO ANSWER %s: %s' % (pid, p))
        return 2
    n = sum(r.get('obligations', 0) for r in report)
    print('%s holds: %d harness(es), %d obligations discharged, solver %.1fs, wall %.1fs' %
          (pid, len(report), n, sum(r.get('solver_s', 0) for r in report), ev['wall_s']))
    return 0

def load_known(pid):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out

def classify(res):
    noise = ('dereferenced function pointer must be',)
    cls = {'ok': [], 'fail': [], 'reach': [], 'unreach': [], 'bound': [], 'unwind': []}
    for r in res:
        d, ok = r['description'], r['status'] == 'SUCCESS'
        if r['status'] not in ('SUCCESS', 'FAILURE'):
            raise Inconclusive('status %s for %s' % (r['status'], r['property']))
        if d.startswith(noise):
            continue
        if d.startswith('VPREACH'):
            cls['unreach' if ok else 'reach'].append(d)
        elif ok:
            cls['ok'].append(r)
        elif d.startswith('VPBOUND'):
            cls['bound'].append(r)
        elif 'unwinding assertion' in d or 'recursion' in d:
            cls['unwind'].append(r)
        else:
            cls['fail'].append(r)
    return cls

def loop_bound(gb, v, loop):
    for e in expand_loops(gb, v.get('unwindset', [])):
        f, n = e.rsplit(':', 1)
        if f == loop:
            return int(n)
    return v.get('unwind', 8)

def run_variant(b, v, ex, timeout, work, pid, known):
    rep = {'name': v['name'], 'harness': v['harness'], 'bounds': v.get('bounds', ''), 'defs': v.get('defs', []), 'unwind': v.get('unwind', 8)}
    t0 = time.time()
    gb = build_goto(b, v, ex)
    rep['build_s'] = round(time.time() - t0, 2)
    extra_us = {}
    for attempt in range(3):
        left = timeout - (time.time() - t0)
        js, secs, cmd = cbmc(b, gb, v, [], left, extra_us)
        res, msgs, st = summarize(js)
        und = sorted({m.group(1) for ty, t in msgs for m in [re.search(r'no body for (?:function|callee) (\S+)', t)] if m})
        und = [u for u in und if u not in LIBC_OK and not u.startswith(('nondet_', '__CPROVER', '__builtin_'))]
        rep['undefined'] = und
        rep['msgs'] = [t for ty, t in msgs][-25:] if os.environ.get('VP_DEBUG') else []
        rep.update(st)
        rep['cbmc_s'] = round(secs, 2)
        rep['cmd'] = ' '.join(c.replace(work, '$W') for c in cmd)
        if res is None:
            raise Inconclusive('cbmc gave no result: ' + '; '.join(t for ty, t in msgs if ty in ('ERROR', 'WARNING'))[-1500:])
        cls = classify(res)
        if not cls['unwind'] or cls['fail'] or time.time() - t0 > timeout / 2:
            break
        # the code loops more often than the bound: raise the bound of these loops and decide again
        for r in cls['unwind']:
            m = re.match(r'(.*)\.unwind\.(\d+)$', r['property'])
            if m:
                loop = '%s.%s' % m.groups()
                cur = extra_us.get(loop) or loop_bound(gb, v, loop)
                extra_us[loop] = min(cur * 2, 130)
        rep['unwind_raised'] = dict(extra_us)
    rep['obligations'] = len(cls['ok'])
    rep['total'] = len(cls['ok']) + len(cls['fail'])
    rep['vp_assertions'] = sum(1 for r in cls['ok'] if r['description'].startswith('VP '))
    rep['reached'] = sorted(set(cls['reach']))
    fns = sorted({f for r in res for f in [r['property'].split('.')[0]]})
    rep['functions'] = fns
    if cls['unwind'] and not cls['fail']:
        # a loop that never ends shows as a hang of the real code
        cls['fail'] = cls['unwind'][:2]
        hang_only = True
    else:
        hang_only = False
    if cls['fail']:
        fails = sorted(cls['fail'], key=lambda r: not r['description'].startswith('VP '))
        exe = build_native(b, v, ex)
        rep['violations'], rep['known'], unconf = [], [], []
        seen = set()
        for r in fails[:6]:
            if r['description'] in seen:
                continue
            seen.add(r['description'])
            js2, secs2, _ = cbmc(b, gb, v, ['--trace', '--property', r['property']], max(60, timeout - (time.time() - t0)), extra_us)
            inp, tr = trace_inputs(js2, r['property'])
            if inp is None:
                unconf.append('%s: no trace' % r['description'])
                continue
            rf = os.path.join(work, 'replay_%s.txt' % hashlib.md5((v['name'] + r['property']).encode()).hexdigest()[:8])
            open(rf, 'w').write('\n'.join(inp) + '\n')
            kind, what = replay(exe, [rf], work)
            if hang_only and kind != 'hang':
                continue
            if kind in ('fail', 'crash', 'hang'):
                kn = [k for k in known if k['match'] in what]
                if kn:
                    rep['known'].append(kn[0]['what'])
                    continue
                dst = save_replay(pid, v, r, inp, kind, what)
                rep['violations'].append({'assertion': r['description'], 'where': r.get('sourceLocation', {}), 'replayed': '%s: %s' % (kind, what), 'replay': dst})
                break
            unconf.append('%s (%s): replay says %s: %s' % (r['description'], r['property'], kind, what))
        rep['unconfirmed'] = unconf
        if not rep['violations'] and unconf:
            rep['error'] = 'counterexample(s) not reproduced by the real code: ' + ' | '.join(unconf)[:1500]
        if rep['violations']:
            return rep
    if hang_only:
        cls['fail'] = []
    errs = [rep['error']] if rep.get('error') else []
    if cls['unwind']:
        errs.append('loop bound too small: ' + ', '.join(sorted({r['property'] for r in cls['unwind']}))[:800])
    if cls['bound']:
        errs.append('outside the encoding: ' + ', '.join(sorted({r['description'] for r in cls['bound']}))[:800])
    if cls['unreach'] and not cls['fail']:
        errs.append('vacuous: not reachable: ' + ', '.join(sorted(set(cls['unreach']))))
    if not cls['reach'] and not errs and not cls['fail']:
        errs.append('vacuous: no reachability witness')
    if errs:
        rep['error'] = '; '.join(errs)
    return rep

def save_replay(pid, v, r, inp, kind, what):
    d = os.path.join(os.environ.get('VP_REPLAY_DIR', os.path.join(HERE, 'evidence', 'replay')))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.json' % (pid, v['name']))
    json.dump({'property': pid, 'variant': v['name'], 'harness': v['harness'], 'defs': v.get('defs', []), 'override': v.get('override', []),
               'assertion': r['description'], 'inputs': inp, 'kind': kind, 'observed': what,
               'how': 'python3 %s/replay.py %s' % (HERE, p)}, open(p, 'w'), indent=1)
    return p

ASSUME = ['CBMC 6.11 and its SAT back end are sound for the C subset of the encoded sources',
          'goto-cc compiles the sources as gcc does for x86-64 (LP64, two\'s complement)',
          'the GLib, libc text and libm models of model/vp_cbmc.c describe the real functions (a counterexample is only reported after the real GLib reproduces it)',
          'the stand-ins for system calls written in the harness return every value the assumption lines of the harness allow',
          'allocation does not fail (GLib ends the program when it does)']

def write_evidence(pid, chk, ev, report, problems, violations):
    cov = {}
    ok = [r for r in report if 'obligations' in r]
    cov['explanation'] = 'Bounded symbolic execution of the C sources of /repo with CBMC: every obligation below was decided by the SAT solver for all values within the stated bounds. ' + chk.get('what', '')
    cov['functions_encoded'] = sorted({f for r in ok for f in r.get('functions', []) if not f.startswith(('vp_', 'g_', 'nondet'))})[:400]
    cov['bounds'] = {r['name']: r.get('bounds', '') for r in report}
    cov['outside'] = chk.get('outside', '')
    cov['harnesses'] = [{k: r.get(k) for k in ('name', 'harness', 'defs', 'unwind', 'obligations', 'vp_assertions', 'vccs', 'vccs_left', 'vars', 'clauses', 'solver_calls', 'solver_s', 'symex_s', 'cbmc_s', 'reached', 'undefined', 'cmd', 'error', 'unconfirmed') if k in r} for r in report]
    cov['obligations'] = sum(r.get('total', 0) for r in ok)
    cov['discharged'] = sum(r.get('obligations', 0) for r in ok)
    cov['property_assertions'] = sum(r.get('vp_assertions', 0) for r in ok)
    cov['solver_calls'] = sum(r.get('solver_calls', 0) for r in ok)
    cov['solver_time_s'] = round(sum(r.get('solver_s', 0) for r in ok), 3)
    cov['problems'] = problems
    cov['violations_found'] = violations
    ev['coverage'] = cov
    ev['violations'] = len(violations)
    ev['assumptions'] = ASSUME + chk.get('assume', [])
    d = os.environ.get('VP_EVIDENCE_DIR', os.path.join(HERE, 'evidence'))
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.exit(main())
