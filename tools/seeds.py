#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds/*.py (planted bugs: source edits plus a demonstration) and tries them out.

usage: seeds.py gen [ID..]     write the directories
       seeds.py try [ID..]     confirm demo passes on a clean copy and fails on the patched one, then run the property's quick check on the copy
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []

HPP = r'''// Common part of the demonstrations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <set>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "system.hpp"
#include <algorithm>
#include <mutex>
inline std::mutex & lock() { static std::mutex m; return m; }
extern "C" { void lv_sched() {} void lv_atomic_begin() { lock().lock(); } void lv_atomic_end() { lock().unlock(); } }
#define REQUIRE( ... ) do { if( !( __VA_ARGS__ ) ) { std::printf( "FAILED line %d: %s\n", __LINE__, #__VA_ARGS__ ); std::exit( 1 ); } } while( 0 )
// runs f in a child: 0 it returned, 1 it reached LvArray's error handler, 2 it died otherwise
template< class F > int outcome( F f )
{
  std::fflush( stdout );
  pid_t p = fork();
  if( p == 0 ) { if( !freopen( "/dev/null", "w", stdout ) ) {} alarm( 20 ); LvArray::system::setErrorHandler( [] { _exit( 77 ); } ); f(); _exit( 0 ); }
  int st = 0;
  waitpid( p, &st, 0 );
  return WIFEXITED( st ) && WEXITSTATUS( st ) == 77 ? 1 : WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ? 0 : 2;
}
// counts objects
struct Counted
{
  static long & live() { static long n = 0; return n; }
  int * p;
  Counted(): p( new int( 0 ) ) { ++live(); }
  Counted( int v ): p( new int( v ) ) { ++live(); }
  Counted( Counted const & o ): p( new int( *o.p ) ) { ++live(); }
  Counted & operator=( Counted const & o ) { *p = *o.p; return *this; }
  ~Counted() { delete p; p = nullptr; --live(); }
  int value() const { return *p; }
  bool operator==( Counted const & o ) const { return *p == *o.p; }
  bool operator!=( Counted const & o ) const { return *p != *o.p; }
  bool operator<( Counted const & o ) const { return *p < *o.p; }
};
'''
SH = r'''#!/bin/sh
# Exit 0 when the demonstration holds, nonzero otherwise.  Run with /repo as the working directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
g++ -std=c++14 -O1 -w %(flags)s -I"$D" -I"$D/stubs" -I"$PWD/src" "$D/demo.cpp" "$PWD/src/system.cpp" "$PWD/src/umpireInterface.cpp" -o "$T/demo" -ldl -lpthread
r=$?
if [ $r -eq 0 ]; then ( cd "$T" && timeout 120 ./demo ); r=$?; fi
[ -f "$T/demo" ] && unlink "$T/demo"
rmdir "$T"
exit $r
'''


def bug(id, prop, edits, needs, breaks, demo, flags='-DNDEBUG', includes=(), extra=()):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, includes=includes, extra=extra))


def load():
    for f in sorted(glob.glob(HERE + '/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})


def patched(b, root):
    for f, old, new in b['edits']:
        p = root + '/' + f
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit('%s: %d matches of %r in %s' % (b['id'], n, old, f))
        open(p, 'w').write(s.replace(old, new))


def gen(ids):
    wt = tempfile.mkdtemp(prefix='seedwt')
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt + '/r'])
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        d = HERE + '/seeded/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        patched(b, wt + '/r')
        diff = subprocess.check_output(['git', '-C', wt + '/r', 'diff']).decode()
        subprocess.check_call(['git', '-C', wt + '/r', 'checkout', '-q', '--', '.'])
        open(d + '/patch.diff', 'w').write(diff)
        inc = ''.join(('#include "%s"\n' if '.' in i else '#include <%s>\n') % i for i in b['includes'])
        open(d + '/demo.hpp', 'w').write(HPP)
        open(d + '/demo.cpp', 'w').write('#include "demo.hpp"\n' + inc + b['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(SH % b)
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copytree(HERE + '/stubs', d + '/stubs')
        for f in b['extra']:
            shutil.copy(HERE + '/' + f, d)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(wt)


def try_(ids, checks=True):
    import re
    wt = tempfile.mkdtemp(prefix='seedwt')
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt + '/r'])
    r = wt + '/r'
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        d = HERE + '/seeded/' + b['id']
        c = subprocess.run(['sh', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        a = subprocess.run(['git', '-C', r, 'apply', d + '/patch.diff'])
        p = subprocess.run(['sh', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        line = '%-22s clean=%d apply=%d patched=%d' % (b['id'], c.returncode, a.returncode, p.returncode)
        if c.returncode:
            line += ' CLEANFAIL ' + c.stdout.decode()[-600:]
        if checks:
            k = subprocess.run(['python3', HERE + '/check.py', b['prop'], '--tier', 'quick'], env=dict(os.environ, LV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = [x for x in k.stdout.decode().split('\n') if x.strip()]
            line += ' check=%d %s' % (k.returncode, ' | '.join(x[:160] for x in o[:2]))
        print(line, '' if p.returncode else 'DEMO MISSED', p.stdout.decode()[-150:].replace('\n', ' ; '), flush=True)
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
    shutil.rmtree(wt)


if __name__ == '__main__':
    load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    nochecks = '--demo' in ids
    ids = [i for i in ids if i != '--demo']
    gen(ids) if cmd == 'gen' else try_(ids, not nochecks)
