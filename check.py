#!/usr/bin/env python3
"""Driver of the solver-based checks.

usage: check.py PROPERTY [--tier quick|thorough] [--entry SUBSTRING] [--keep] [-v]

Every run: compile the property's harnesses together with the LvArray sources in /repo to LLVM bitcode, execute every entry point
symbolically with the lvsym engine (Z3 decides), replay sampled paths and every counterexample against a native sanitizer build of the same
harness and sources, compare with the known findings, and write evidence/<property>.json.
Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check itself could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LV_REPO', '/repo')
SRC = REPO + '/src'
ENGINE = HERE + '/build/lvsym'
CLANG, CLANGC, OPT = 'clang++-18', 'clang-18', 'opt-18'
NPROC = os.cpu_count() or 4
T0 = time.time()

INC = ['-I' + HERE + '/harness', '-I' + HERE + '/stubs', '-I' + SRC, '-isystem', SRC]
WARN = ['-Wno-everything']
PASSES = 'cgscc(inline,function(sroa,early-cse,simplifycfg<no-speculate-blocks;bonus-inst-threshold=0>)),globaldce'
OPTFLAGS = ['-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-inline-threshold=2000']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,pointer-overflow,alignment,function,vptr,null,returns-nonnull-attribute,float-divide-by-zero',
             '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope'],
    'msan': ['-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins'],
    'tsan': ['-fsanitize=thread', '-DLV_TSAN=1'],
}


class CheckError(Exception):
    pass


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=600, env=None, mem_gb=None, cwd=None):
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=lim, cwd=cwd)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode(errors='replace'), 'timeout'


def directives(path):
    """// LV: key=value lines at the head of a harness."""
    d = {'variants': [('', [])], 'modes': [], 'flags': [], 'engine': [], 'time': None, 'system': False}
    vs = []
    for line in open(path):
        m = re.match(r'//\s*LV:\s*(\w+)\s*=\s*(.*)', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'variant':
            p = v.split()
            vs.append((p[0], p[1:]))
        elif k == 'flags':
            d['flags'] += v.split()
        elif k == 'engine':
            d['engine'] += v.split()
        elif k == 'time':
            d['time'] = float(v)
        elif k == 'system':
            d['system'] = True
        elif k == 'contract':       # contract=NAME STUB: calls of the functions of that name are answered by STUB (another check decides that they do what STUB says)
            d['contracts'] = d.get('contracts', []) + [tuple(v.split())]
            d['engine'] += ['--contract'] + v.split()
        elif k == 'config' and v == 'bounds':
            d['flags'] += ['-DLV_BOUNDS_CHECK', '-UNDEBUG']
        elif k == 'use':            # use=VARIANT FILE REGEX: another harness in this configuration, only the matching entries
            p = v.split()
            vs.append((p[0], ['-DLV_USE=\"%s\"' % p[1]]))
            d.setdefault('only', {})[p[0]] = p[2]
    if vs:
        d['variants'] = vs
    return d


class Unit:
    """One harness file compiled in one variant."""

    def __init__(self, path, variant, flags, d, tier, build):
        self.path, self.variant, self.d, self.tier = path, variant, d, tier
        self.name = os.path.basename(path)[:-4] + (('-' + variant) if variant else '')
        self.flags = ['-std=c++14', '-DNDEBUG'] + INC + d['flags'] + flags + (['-DLV_THOROUGH=1'] if tier == 'thorough' else [])
        if d['system']:
            self.flags += ['-DLV_REAL_SYSTEM=1']
        if '-UNDEBUG' in self.flags:
            self.flags.remove('-DNDEBUG')
        self.build = build
        self.native = {}

    def bitcode(self):
        b = self.build + '/' + self.name
        rc, o, e = run([CLANG] + self.flags + WARN + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
                        '-fno-builtin-sin', '-DLV_NO_EXTERN_TEMPLATE=1', '-gline-tables-only', '-DLV_SYMBOLIC=1', '-fno-use-cxa-atexit' if False else '-fcxx-exceptions' if '-fexceptions' in self.flags else '-fno-cxx-exceptions',
                        '-emit-llvm', '-c', self.path, '-o', b + '.raw.bc'])
        if rc:
            raise CheckError('cannot compile %s to bitcode:\n%s' % (self.name, e[-3000:]))
        for name, _ in self.d.get('contracts', []):
            rc, o, e = run(['llvm-nm-18', '--defined-only', b + '.raw.bc'])
            if not re.search(r'\d%s' % name, o):
                raise CheckError('%s: no function %s in the code' % (self.name, name))
            rc, o, e = run(['llvm-extract-18', '--delete', '--rfunc=[0-9]%s' % name, b + '.raw.bc', '-o', b + '.raw.bc'])
            if rc:
                raise CheckError('llvm-extract failed on %s: %s' % (self.name, e[-2000:]))
        rc, o, e = run([OPT] + OPTFLAGS + ['-passes=' + PASSES, b + '.raw.bc', '-o', b + '.bc'])
        if rc:
            raise CheckError('opt failed on %s: %s' % (self.name, e[-2000:]))
        rc, o, e = run(['llvm-nm-18', '--defined-only', b + '.bc'])
        self.entries = sorted(m.group(1) for m in re.finditer(r' T entry_(\w+)', o))
        if self.tier == 'quick':
            self.entries = [x for x in self.entries if not x.endswith('_T')]
        if self.variant in self.d.get('only', {}):
            self.entries = [x for x in self.entries if re.fullmatch(self.d['only'][self.variant], x)]
        self.bc = b + '.bc'

    def native_build(self, san):
        """Sanitizer build; the prelude's runtime is native.cpp."""
        exe = self.build + '/' + self.name + '.' + san
        cmd = [CLANG] + self.flags + WARN + ['-O0', '-g1', '-ffp-contract=off', '-rdynamic', '-DLV_NO_EXTERN_TEMPLATE=1' if san == 'msan' else '-DLV_N=1'] + SAN[san] + [self.path, HERE + '/harness/native.cpp', '-o', exe, '-ldl', '-lpthread']
        rc, o, e = run(cmd)
        if rc:
            raise CheckError('cannot build %s natively (%s):\n%s' % (self.name, san, e[-3000:]))
        return exe


def native_run(exe, entry, inputs, real, build, tag, free_threads=False):
    f = '%s/in-%s.txt' % (build, tag)
    with open(f, 'w') as o:
        for n, v in inputs:
            o.write('%s\t%s\n' % (n, v))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0:quarantine_size_mb=16'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=78'
    env['MSAN_OPTIONS'] = 'exitcode=79'
    env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1'
    if real:
        env['LV_REAL'] = '1'
    cmd = [exe, entry, f]
    if free_threads:
        env['LV_FREE_THREADS'] = '1'
    if exe.endswith('.tsan') or exe.endswith('.msan'):
        cmd = ['setarch', '-R'] + cmd
    rc, o, e = run(cmd, timeout=30, env=env)
    obs = re.findall(r'^OBS (\d+)', o, re.M)
    end = re.findall(r'^END (\S+)', o, re.M)
    nv = re.findall(r'^NATIVE-VIOLATION (.*)', o, re.M)
    why = nv[0] if nv else ''
    if not why and rc not in (0, 4, 5, 6):
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*)', e)
        why = m.group(1) if m else ('did not terminate' if rc in (-14, -999, 142) else 'exit status %d %s' % (rc, e[-200:]))
    return {'rc': rc, 'obs': obs, 'end': end[0] if end else '', 'why': why, 'out': o, 'err': e, 'file': f, 'cmd': cmd}


def run_entry(u, entry, deadline, tier, idx):
    real = entry.endswith('_R') or '_R_' in entry
    fp = '_FP' in entry
    left = deadline - time.time()
    if left < 5:
        return {'entry': entry, 'skipped': True}
    lim = u.d['time'] or (200 if tier == 'quick' else 1500)
    lim = min(lim, left - 3)
    js = '%s/%s-%s.json' % (u.build, u.name, entry)
    cmd = [ENGINE, u.bc, '--entry', 'entry_' + entry, '--json', js, '--max-time', '%.0f' % lim, '--cov-prefix', SRC + '/', '--samples', '24' if tier == 'quick' else '60'] + u.d['engine']
    if real:
        cmd += ['--real']
    if fp:
        cmd += ['--fp']
    qd = None
    if tier == 'thorough':
        qd = '%s/q-%s-%s' % (u.build, u.name, entry)
        os.makedirs(qd, exist_ok=True)
        cmd += ['--dump', qd, '--dump-every', '97']
    rc, o, e = run(cmd, timeout=lim + 120, mem_gb=6)
    if rc not in (0, 1) or not os.path.exists(js):
        return {'entry': entry, 'crashed': 'engine status %s: %s' % (rc, e[-600:])}
    r = json.load(open(js))
    r['real'] = real
    r['qdir'] = qd
    return r


def cross_check(qdir):
    """Second solver on a sample of the dumped queries."""
    n = bad = 0
    for f in sorted(glob.glob(qdir + '/*.smt2'))[:12]:
        want = 'unsat' if '.unsat.' in f else 'sat'
        rc, o, e = run(['cvc5', '--tlimit=4000', f], timeout=10)
        got = o.strip().split('\n')[0] if o.strip() else ''
        if got in ('sat', 'unsat'):
            n += 1
            if got != want:
                bad += 1
    return n, bad


def build_engine():
    src = sorted(glob.glob(HERE + '/engine/*.[ch]pp'))
    h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = HERE + '/build/engine.stamp'
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    rc, o, e = run(['bash', HERE + '/engine/build.sh', ENGINE], timeout=900)
    if rc:
        raise CheckError('cannot build the engine:\n' + e[-3000:])
    open(stamp, 'w').write(h)


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default='')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry', default='')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    VERBOSE = a.v
    if a.setup:
        os.makedirs(HERE + '/build', exist_ok=True)
        build_engine()
        print('engine ready')
        sys.exit(0)
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    hard = 560 if tier == 'quick' else 7000
    deadline = T0 + hard
    os.makedirs(HERE + '/build', exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    build = '%s/build/%s-%s-%d' % (HERE, prop, tier, os.getpid())
    os.makedirs(build)
    try:
        rc = check(prop, tier, a, build, deadline)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, a, build, deadline):
    build_engine()
    files = sorted(glob.glob('%s/harness/%s*.cpp' % (HERE, prop)))
    if not files:
        raise CheckError('no harness for ' + prop)
    units = []
    for f in files:
        d = directives(f)
        for vn, vf in d['variants']:
            if tier == 'quick' and vn.endswith('_T'):
                continue
            units.append(Unit(f, vn, vf, d, tier, build))
    known = [k for k in json.load(open(HERE + '/known_findings.json'))['findings'] if k['property'] == prop]
    pool = cf.ThreadPoolExecutor(NPROC)
    bcf = [pool.submit(u.bitcode) for u in units]
    for x in bcf:
        x.result()
    log('[%.1fs] bitcode of %d units' % (time.time() - T0, len(units)))
    jobs = []
    for u in units:
        for e in u.entries:
            if a.entry in (u.name + ':' + e):
                jobs.append((u, e))
    natf = {}
    for u in units:
        if any(j[0] is u for j in jobs):
            natf[u] = pool.submit(u.native_build, 'asan')
    res = {}
    futs = {pool.submit(run_entry, u, e, deadline, tier, i): (u, e) for i, (u, e) in enumerate(jobs)}
    for x in cf.as_completed(futs):
        u, e = futs[x]
        r = x.result()
        res[(u, e)] = r
        if 'paths' in r:
            log('[%.1fs] %-28s %-34s paths %6d abort %5d queries %7d solver %6.1fs wall %6.1fs incompl %d viol %d %s' % (time.time() - T0, u.name, e, r['paths'], r['aborted_paths'], r['queries'], r['solver_s'], r['wall_s'], r['incomplete'], len(r['violations']), r['incomplete_why'] or ''))
        else:
            log(u.name, e, r)
    # native validation of sampled paths
    natives = {u: f.result() for u, f in natf.items()}
    vjobs = []
    for (u, e), r in res.items():
        for k, s in enumerate(r.get('samples', [])):
            vjobs.append((u, e, r, k, s))

    def validate(j):
        u, e, r, k, s = j
        n = native_run(natives[u], e, s['inputs'], r['real'], build, '%s-%s-s%d' % (u.name, e, k))
        return n
    validated = mismatches = 0
    native_only = []
    mism = []
    for j, n in zip(vjobs, pool.map(validate, vjobs)):
        u, e, r, k, s = j
        if n['why']:
            native_only.append((u, e, r, s, n))
        elif n['rc'] == 0 and n['end'] == ('aborted' if s['aborted'] else 'ok') and (r['real'] or n['obs'] == s['obs']):
            validated += 1
        elif n['rc'] == 6:
            pass            # a real-number model that is not a double: says nothing
        else:
            mismatches += 1
            mism.append('%s:%s rc=%s end=%s want=%s obs %s / %s inputs %s' % (u.name, e, n['rc'], n['end'], 'aborted' if s['aborted'] else 'ok', n['obs'][:8], s['obs'][:8], s['inputs'][:12]))
    log('[%.1fs] validated %d sampled paths, %d mismatches' % (time.time() - T0, validated, mismatches))
    for m in mism[:5]:
        print('NOTE native run differs from the encoding: ' + m)
    # counterexamples
    violations, known_hit, unconfirmed = [], [], []
    cexs = []
    for (u, e), r in sorted(res.items(), key=lambda x: x[0][0].name + x[0][1]):
        for v in r.get('violations', []):
            cexs.append((u, e, r, v))
    sanb = {}

    def exe_for(u, san):
        if san == 'asan':
            return natives[u]
        if (u, san) not in sanb:
            sanb[(u, san)] = u.native_build(san)
        return sanb[(u, san)]
    seen = {}
    for i, (u, e, r, v) in enumerate(cexs):
        key = (e, v['kind'], v['msg'])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 2 or len(violations) >= 6:
            continue
        tag = '%s-%s-v%d' % (u.name, e, i)
        tries = []
        n = native_run(natives[u], e, v['inputs'], r['real'], build, tag)
        tries.append(('asan', n))
        if not n['why'] and v['kind'] == 'uninit':
            n = native_run(exe_for(u, 'msan'), e, v['inputs'], r['real'], build, tag)
            tries.append(('msan', n))
        if not n['why'] and v['kind'] == 'race':
            for _ in range(5):
                n = native_run(exe_for(u, 'tsan'), e, v['inputs'], r['real'], build, tag, free_threads=True)
                tries.append(('tsan', n))
                if n['why']:
                    break
        if not n['why']:
            unconfirmed.append('%s:%s %s: %s at %s; native %s' % (u.name, e, v['kind'], v['msg'], v['loc'], [(t, x['rc'], x['end']) for t, x in tries]))
            log('UNCONFIRMED', unconfirmed[-1], v['inputs'])
            continue
        kf = [k for k in known if k['entry'] == e and re.search(k['match'], '%s: %s | %s' % (v['kind'], v['msg'], n['why']))]
        if kf:
            known_hit.append((kf[0], v, n))
            continue
        violations.append((u, e, v, n, tries[-1][0]))
    for (u, e, r, s, n) in native_only:
        kf = [k for k in known if k['entry'] == e and re.search(k['match'], 'native: %s' % n['why'])]
        if kf:
            known_hit.append((kf[0], None, n))
            continue
        if len(violations) < 6:
            violations.append((u, e, {'kind': 'native', 'msg': n['why'], 'loc': 'native replay of a solver-generated path', 'inputs': s['inputs'], 'stack': ''}, n, 'asan'))
    # cross-check
    xc = xb = 0
    if tier == 'thorough':
        for n, b in pool.map(cross_check, [r['qdir'] for r in res.values() if r.get('qdir')]):
            xc += n
            xb += b
        if xb:
            print('NOTE %d of %d cross-checked queries disagree between z3 and cvc5' % (xb, xc))
    # report
    for k in {k['id']: k for k, _, _ in known_hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rdir = HERE + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rdir, prop)):
        os.unlink(f)
    for i, (u, e, v, n, san) in enumerate(violations):
        rp = '%s/%s-%d.txt' % (rdir, prop, i)
        with open(rp, 'w') as o:
            o.write('# property %s, harness %s (variant %r), entry %s, %s build\n# solver: %s: %s at %s\n# native: %s\n# stack: %s\n' % (prop, u.path, u.variant, e, san, v['kind'], v['msg'], v['loc'], n['why'], v['stack']))
            o.write('# replay: build %s with harness/native.cpp (see check.py), run: EXE %s THIS-FILE\n' % (os.path.basename(u.path), e))
            for nm, val in v['inputs']:
                o.write('%s\t%s\n' % (nm, val))
        print('  %s %s:%s  %s: %s at %s\n      native replay: %s\n      inputs: %s' % (prop, u.name, e, v['kind'], v['msg'], v['loc'], n['why'][:300], ' '.join('%s=%s' % tuple(x) for x in v['inputs'])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for x in unconfirmed[:5]:
        print('NOTE solver counterexample not reproduced natively, not reported as a violation: ' + x[:500])
    crashed = [(u.name, e, r['crashed']) for (u, e), r in res.items() if 'crashed' in r]
    skipped = [e for (u, e), r in res.items() if r.get('skipped')]
    for c in crashed:
        print('NOTE entry %s:%s gave no answer: %s' % c)
    # evidence
    ok = [r for r in res.values() if 'paths' in r]
    tot = lambda k: sum(r[k] for r in ok)
    fns, lines, labels, why = set(), {}, {}, {}
    for (u, e), r in res.items():
        if 'paths' not in r:
            continue
        fns.update(r['functions'])
        for f, n in r['lines'].items():
            lines[os.path.relpath(f, REPO)] = max(n, lines.get(os.path.relpath(f, REPO), 0))
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in r['incomplete_why'].items():
            why[e + ': ' + k] = why.get(e + ': ' + k, 0) + n
    samples = []
    for (u, e), r in list(res.items())[:40]:
        for s in r.get('samples', [])[:1]:
            samples.append({'entry': u.name + ':' + e, 'inputs': {('%s#%d' % (n, i)): v for i, (n, v) in enumerate(s['inputs'][:24])}, 'observed': s['obs'][:12], 'aborted': s['aborted']})
    bounds = []
    for f in files:
        for line in open(f):
            m = re.match(r'//\s*BOUNDS?:\s*(.*)', line)
            if m:
                bounds.append(os.path.basename(f) + ': ' + m.group(1).strip())
    assumptions = [l for f in files for l in re.findall(r'^//\s*ASSUMES?:\s*(.*)', open(f).read(), re.M)]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths') + tot('forks'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated, 'samples': samples,
            'entries': len(jobs), 'entries_complete_within_bounds': sum(1 for r in ok if r['incomplete'] == 0), 'paths': tot('paths'), 'paths_rejected_by_the_error_handler': tot('aborted_paths'),
            'assertions': tot('asserts'), 'assertions_over_symbolic_values': tot('symbolic_asserts'), 'memory_accesses_checked': tot('memory_checks'), 'symbolic_addresses': tot('symbolic_addresses'),
            'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 3), 'max_query_s': max([r['max_query_s'] for r in ok] or [0]),
            'functions_encoded': sorted(fns), 'source_lines_executed_symbolically': lines, 'reachability_witnesses': labels, 'bounds': bounds, 'incomplete': why,
            'native_mismatches': mismatches, 'unconfirmed_counterexamples': len(unconfirmed), 'known_findings_hit': sorted({k['id'] for k, _, _ in known_hit}),
            'entries_without_answer': [c[1] for c in crashed] + skipped, 'queries_cross_checked_with_cvc5': xc, 'cvc5_disagreements': xb,
            'exhaustive': bool(ok) and all(r['incomplete'] == 0 for r in ok) and not crashed and not skipped,
        },
        'assumptions': ['LLVM 18 bitcode of the harness and of /repo/src at -O1 without optimisation passes other than inlining, SROA, CSE and CFG simplification', 'Z3 4.8.12 verdicts', 'single host memory space; camp and RAJA replaced by the serial stand-ins in stubs/'] + assumptions,
        'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    if not a.entry:
        json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    log('[%.1fs] done' % (time.time() - T0))
    if violations:
        return 1
    # every entry must have run, and at least one path must have reached the end of every entry
    if crashed and len(crashed) == len(jobs):
        raise CheckError('no entry gave an answer')
    vac = [u.name + ':' + e for (u, e), r in res.items() if 'paths' in r and r['paths'] == 0 and r['incomplete'] == 0 and not r['violations']]
    if vac:
        raise CheckError('vacuous entries: ' + ', '.join(vac))
    print('OK property=%s tier=%s entries=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs%s' % (prop, tier, len(jobs), tot('paths'), tot('queries'), tot('solver_s'), validated, time.time() - T0, '' if ev['coverage']['exhaustive'] else ' (some entries incomplete, see evidence)'))
    return 0


if __name__ == '__main__':
    main()
