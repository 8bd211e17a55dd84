#!/usr/bin/env python3
"""Mutation survey: small edits of the lines the checks execute symbolically, one at a time, in copies of /repo; the ones no covering entry
reports are listed for inspection (equivalent mutants among them).  Not part of any check.

usage: mutate.py plan COV LOGDIR OUT.json [FILE..]   (COV from LV_COVDUMP, LOGDIR with the -v output of the checks as cov_NN.out)
       mutate.py run PLAN.json RESULT.txt [N [SEED [WORKERS]]]
       mutate.py one SPEC.json
"""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r' < (?![A-Z_]+ >)', ' <= '), (r' < ', ' > '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'),
       (r'\bif\( (.*) \)$', r'if( false && ( \1 ) )'), (r'\bif\( (.*) \)$', r'if( true || ( \1 ) )'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(\b\w+) \? (.*) : (.*);', r'\1 ? \3 : \2;'), (r'-(?=[\w(])', ''), (r'!(?=[\w(])', ''),
       (r'^(\s*)((?!return|using|template|typename|static|constexpr|for|if|else|while|case|struct|class|break|LVARRAY_ASSERT)[\w.\->:]+(\[.*\]|\( .*\)|<.*>\(.*\))?( ([-+*/|&]?=) .*)?|\+\+.*|--.*|::new.*|new \(.*);$', r'\1;')]


def mutants(line):
    code = line.split('//')[0].rstrip()
    if not code.strip() or code.strip().startswith(('*', '#', '/')):
        return
    for k, (pat, rep) in enumerate(OPS):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if new != code:
                yield new
            if k >= len(OPS) - 1:
                break


def plan(cov, logs, out, only):
    wall = {}
    for f in os.listdir(logs):
        m = re.match(r'cov_(\d\d)\.out$', f)
        if m:
            for l in open(logs + '/' + f, errors='replace'):
                k = re.match(r'\[[\d.]+s\] (\S+)\s+(\S+)\s+paths.* wall\s+([\d.]+)s', l)
                if k:
                    wall[(k.group(1), k.group(2))] = float(k.group(3))
    by = collections.defaultdict(set)
    for l in open(cov):
        bc, e, loc = l.rstrip('\n').split('\t')
        u = os.path.basename(bc)[:-3]
        e = e[6:] if e.startswith('entry_') else e
        if (u, e) in wall:
            by[loc].add((u, e))
    ms = []
    full = {}
    for loc, es in by.items():          # lines without a location of their own share the entries of the nearest line
        f, n = loc.rsplit(':', 1)
        for d in range(-5, 6):
            k = (f, int(n) + d)
            if k not in full or abs(d) < full[k][0]:
                full[k] = (abs(d), es)
    for (f, n), (d, es) in sorted(full.items()):
        f = f[f.index('/src/') + 1:]
        if n > len(open('/repo/' + f).read().split('\n')):
            continue
        if only and os.path.basename(f) not in only:
            continue
        line = open('/repo/' + f).read().split('\n')[int(n) - 1]
        us = collections.defaultdict(list)
        for u, e in es:
            us[u].append((wall[(u, e)], e))
        sel = []
        for u, l in sorted(us.items(), key=lambda x: min(x[1])):
            l.sort()
            pick = [e for t, e in l[:3]] + [e for t, e in l[3:] if t < 25][::max(1, len(l) // 3)][:3]
            sel.append((u, pick))
        for new in mutants(line):
            ms.append({'file': f, 'line': int(n), 'old': line, 'new': new, 'units': sel[:6]})
    json.dump(ms, open(out, 'w'))
    c = collections.Counter(m['file'] for m in ms)
    print(len(ms), c)


def one(spec):
    sys.path.insert(0, HERE)
    import check
    import time
    check.VERBOSE = False
    s = json.load(open(spec))
    b = tempfile.mkdtemp(prefix='mutb')
    try:
        for name, entries in s['units']:
            f, _, v = name.partition('-')
            path = HERE + '/harness/' + f + '.cpp'
            d = check.directives(path)
            fl = dict(d['variants']).get(v, [])
            u = check.Unit(path, v, fl, d, 'quick', b)
            try:
                u.bitcode()
            except check.CheckError as e:
                print('NOCOMPILE', name, re.findall(r'error: [^\n]*', str(e))[:1])
                return
            for e in entries:
                u.d['time'] = 60
                r = check.run_entry(u, e, time.time() + 200, 'quick', 0)
                if 'crashed' in r:
                    print('CRASHED %s:%s %s' % (name, e, r['crashed'][-200:].replace('\n', ' ')))
                    return
                if r.get('violations'):
                    w = r['violations'][0]
                    print('KILLED %s:%s %s %s' % (name, e, w['kind'], w['msg'][:80]))
                    return
                if r.get('incomplete'):
                    print('(incomplete %s %s)' % (e, str(r.get('incomplete_why'))[:200]), end=' ')
    finally:
        shutil.rmtree(b)
    # second stage: the whole quick checks
    props = []
    for name, entries in s['units']:
        if name[:3] not in props:
            props.append(name[:3])
    for p in props + ['C26', 'C32']:
        k = subprocess.run([sys.executable, HERE + '/check.py', p, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if k.returncode == 1:
            print('KILLED2', p)
            return
        if k.returncode:
            print('(status %d of %s)' % (k.returncode, p), end=' ')
    print('SURVIVED')


def run(planf, out, n=200, seed=1, workers=8):
    import concurrent.futures as cf
    import threading
    ms = json.load(open(planf))
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(tuple(l.split(' | ')[1:4]))
    ms = [m for m in ms if (('%s:%d' % (m['file'], m['line'])), m['old'].strip(), m['new'].strip()) not in done][:n]
    wt = tempfile.mkdtemp(prefix='mutw')
    free = []
    for i in range(workers):
        subprocess.check_call(['git', 'clone', '-q', '/repo', '%s/%d' % (wt, i)])
        free.append('%s/%d' % (wt, i))
    lock = threading.Lock()

    def go(m):
        with lock:
            r = free.pop()
        p = r + '/' + m['file']
        s = open(p).read()
        l = s.split('\n')
        l[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(l))
        sp = r + '.json'
        json.dump(m, open(sp, 'w'))
        try:
            k = subprocess.run([sys.executable, os.path.abspath(__file__), 'one', sp], env=dict(os.environ, LV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=2400)
            o = k.stdout.decode(errors='replace').strip().split('\n')[-1]
        except subprocess.TimeoutExpired:
            o = 'TIMEOUT'
        open(p, 'w').write(s)
        with lock:
            free.append(r)
            with open(out, 'a') as g:
                g.write('%s | %s:%d | %s | %s | %s\n' % (o.split()[0] if not o.startswith('(') else o.split()[-1], m['file'], m['line'], m['old'].strip(), m['new'].strip(), o))
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, ms))
    shutil.rmtree(wt)


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'plan':
        plan(a[2], a[3], a[4], a[5:])
    elif a[1] == 'one':
        one(a[2])
    else:
        run(a[2], a[3], *map(int, a[4:7]))
