#!/usr/bin/env python3
"""Mutation survey without coverage data: random mutants (see mutate.py) of the named files, each against the whole quick checks of the named properties.
usage: mutate_simple.py OUT N SEED WORKERS PROP,PROP FILE[:FROM-TO].."""
import concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import mutants, HERE
out, n, seed, workers, props, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5].split(','), sys.argv[6:]
ms = []
for f in files:
    f, _, r = f.partition(':')
    lines = open('/repo/' + f).read().split('\n')
    a, b = (int(x) for x in r.split('-')) if r else (1, len(lines))
    ms += [(f, i, x) for i in range(a - 1, min(b, len(lines))) for x in mutants(lines[i])]
random.Random(seed).shuffle(ms)
print(len(ms), 'mutants')
wt = tempfile.mkdtemp(prefix='mutw')
free = []
for i in range(workers):
    subprocess.check_call(['git', 'clone', '-q', '/repo', '%s/%d' % (wt, i)])
    free.append('%s/%d' % (wt, i))
lock = threading.Lock()


def go(m):
    f, i, new = m
    with lock:
        r = free.pop()
    p = r + '/' + f
    s = open(p).read()
    l = s.split('\n')
    old, l[i] = l[i], new
    open(p, 'w').write('\n'.join(l))
    o = 'SURVIVED'
    for q in props:
        try:
            k = subprocess.run([sys.executable, HERE + '/check.py', q], env=dict(os.environ, LV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
        except subprocess.TimeoutExpired:
            o = 'TIMEOUT'
            continue
        if k.returncode == 1:
            o = 'KILLED ' + q
            break
        if k.returncode:
            t = k.stdout.decode(errors='replace')
            o = 'NOCOMPILE' if 'error:' in t else 'STATUS%d %s' % (k.returncode, t.strip().split('\n')[-1][-200:])
            if o == 'NOCOMPILE':
                break
    open(p, 'w').write(s)
    with lock:
        free.append(r)
        with open(out, 'a') as g:
            g.write('%s | %s:%d | %s | %s\n' % (o, f, i + 1, old.strip(), new.strip()))


with cf.ThreadPoolExecutor(workers) as ex:
    list(ex.map(go, ms[:n]))
shutil.rmtree(wt)
