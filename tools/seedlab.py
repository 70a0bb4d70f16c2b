#!/usr/bin/env python3
"""Make and confirm a planted bug.

    seedlab.py SPEC.py...     SPEC.py sets: id, property, needs, breaks,
                              edits=[(file, old, new)], demo (C++ source) or
                              sh (body of demo.sh), optional flags, srcs

Writes /verif/seeded/<id>/ after confirming, in a bind-mounted scratch copy of
/repo, that the demo passes on the unchanged tree, and that the change builds,
passes the stable tests and fails the demo."""
import json, os, shutil, subprocess, sys, tempfile
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
HDR = '/tmp/seed/demo.hpp'
CPP = r'''#!/bin/bash
# Exit 0 when the property holds. Run with cwd /repo after its build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 97
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -g -O1 -w -fopenmp -DUSE_NUMA @FLAGS@ -I"$here" -I. -Ilibman -Ilibkcommon -Ilibauto \
    "$here/demo.cpp" @SRCS@ \
    -o "$t/demo" -lnuma -lpthread -lrt -ldl || exit 96
cd "$t" && timeout -s KILL @TIME@ ./demo
'''
SH = r'''#!/bin/bash
# Exit 0 when the property holds. Run with cwd /repo after its build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 97
trap 'rm -rf "$t"' EXIT
repo=$PWD
'''
LIBS = 'libauto/libauto.a libman/libman.a libkcommon/libkcommon.a'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

def inns(repo, cmd, timeout=900):
    return sh(f"unshare -Urm bash -c 'mount --bind {repo} /repo && cd /repo && {cmd}'", timeout=timeout)

def main(spec):
    s = {}
    exec(open(spec).read(), s)
    d = os.path.join(OUT, s['id'])
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = tmp + '/repo'
        sh(f'cp -a /repo {repo}')
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{f}: old text found {t.count(old)} times'
            open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {repo} diff').stdout
        # the lines changed must be the project's own
        fixed = []
        for f, old, new in s['edits']:
            lines = open('/repo/' + f).read().split(old)[0].count('\n') + 1
            bl = sh(f"git -C /repo blame -s -L {lines},{lines + old.count(chr(10))} {f}").stdout.splitlines()
            fixed += [l for l in bl if not l.startswith('^9ab9f7c')]
        if fixed:
            print('  note: touches lines of fixes:', *fixed, sep='\n    ')
        w = tmp + '/seed'
        os.mkdir(w)
        if 'demo' in s:
            open(w + '/demo.cpp', 'w').write(s['demo'])
            shutil.copy(HDR, w)
            body = CPP.replace('@FLAGS@', s.get('flags', '')).replace('@SRCS@', s.get('srcs', LIBS)).replace('@TIME@', str(s.get('time', 120)))
        else:
            body = SH + s['sh']
        for n, c in s.get('files', {}).items():
            open(f'{w}/{n}', 'w').write(c)
        open(w + '/demo.sh', 'w').write(body)
        os.chmod(w + '/demo.sh', 0o755)
        r = sh(f'cd /repo && bash {w}/demo.sh', timeout=400)
        if r.returncode:
            return f'demo fails on the unchanged tree ({r.returncode}): {r.stderr[-1500:]}'
        if os.environ.get('FAST'):
            r = inns(repo, f'bash /opt/vp/build.sh >/dev/null 2>{tmp}/err || exit 77; bash {w}/demo.sh')
        else:
            # no SCHED_FIFO in a user namespace: the lost wakeup of the project's
            # own test drivers (see /opt/vp/run_tests.py) makes some runs hang
            passed = set()
            for _ in range(6):
                r = inns(repo, f'bash /opt/vp/test.sh {tmp}/o.json >/dev/null 2>{tmp}/err || exit 77')
                passed |= set(json.load(open(tmp + '/o.json'))['passed'])
                if r.returncode or len(passed) >= 27:
                    break
            if r.returncode or len(passed) < 27:
                return f"tests fail:  {len(passed)}"
            r = inns(repo, f'bash {w}/demo.sh')
        if r.returncode in (0, 77, 96, 97):
            return f'demo does not fail with the change: rc {r.returncode} {r.stderr[-800:]} {open(tmp+"/err").read()[-800:]}'
        print(f"  demo with change: rc {r.returncode} {r.stderr.strip()[-200:]}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n in os.listdir(w):
            shutil.copy(f'{w}/{n}', d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(tmp)

bad = 0
for spec in sys.argv[1:]:
    print('==', os.path.basename(spec), flush=True)
    e = main(spec)
    print('  OK' if e is None else '  REFUSED: ' + e, flush=True)
    bad |= e is not None
sys.exit(bad)
