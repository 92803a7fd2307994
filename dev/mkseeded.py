#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in dev/bugs/*.py and confirms each one in a scratch copy of /repo:
the patch changes original lines, builds, passes the stable tests; the demonstration passes without and fails with it.
usage: mkseeded.py [id...]   (default: those that have no seeded/<id>/ yet)"""
import sys, os, subprocess, shutil, json, glob, difflib, runpy
V = '/verif'; S = '/tmp/sc'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def scratch():
    os.makedirs(S, exist_ok=True)
    sh(f'cd /repo && git archive HEAD | tar x -m -C {S}')
    if not os.path.exists(S + '/_build/build.ninja'):
        r = sh(f'cd {S} && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest')
        assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
def tests():
    r = sh(f'cd {S} && ninja -C _build')
    if r.returncode: return 'BUILD FAILS: ' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:4])[:600]
    r = sh(f'cd {S}/_build && timeout 300 ctest -j8')
    if r.returncode:
        return 'TESTS FAIL: ' + '\n'.join([l for l in r.stdout.splitlines() if 'Failed' in l or '***' in l][:6])[:600]
    return None
def original_lines(f):
    out = sh(f'cd /repo && git blame -s HEAD -- {f}').stdout.splitlines()
    return [l.startswith('^') for l in out]
def demo(i):
    r = sh(f'cd {S} && bash {V}/seeded/{i}/demo.sh', timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def main():
    bugs = {}
    for f in sorted(glob.glob(V + '/dev/bugs/*.py')):
        for b in runpy.run_path(f)['BUGS']: 
            assert b['id'] not in bugs, b['id']; bugs[b['id']] = b
    ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(f'{V}/seeded/{i}/patch.diff')]
    scratch()
    for i in ids:
        b = bugs[i]; d = f'{V}/seeded/{i}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        patch = ''; bad = None
        for f in sorted({e[0] for e in b['edits']}):
            s0 = s = open(f'/repo/{f}').read()
            for e in b['edits']:
                if e[0] != f: continue
                n = e[3] if len(e) > 3 else 1
                if s.count(e[1]) < 1 or (n == 1 and s.count(e[1]) != 1): bad = f'edit matches {s.count(e[1])} times in {f}: {e[1][:60]!r}'; break
                s = s.replace(e[1], e[2])
            if bad: break
            a0 = s0.splitlines(True); a1 = s.splitlines(True)
            org = original_lines(f); touched = 0; ours = 0
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a0, a1, autojunk=False).get_opcodes():
                if tag in ('replace', 'delete'):
                    for k in range(i1, i2): touched += org[k]; ours += not org[k]
            if not touched: bad = 'touches no original line'; break
            if ours: print(f'  note {i}: also touches {ours} line(s) of ours in {f}')
            patch += ''.join(difflib.unified_diff(a0, a1, 'a/' + f, 'b/' + f))
        if bad: print(i, 'BAD', bad); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(patch)
        inc = b.get('common', True)
        open(d + '/demo.cc', 'w').write(('#include "common.h"\n' if inc else '') + b['demo'].lstrip('\n'))
        if inc: shutil.copy(V + '/dev/common.h', d + '/common.h')
        runs = []
        for m in b['modes']:
            runs.append('run ' + {'20': 'g++ -std=c++20', '14': 'g++ -std=c++14 -DC14', 'c20': 'clang++ -std=c++20', '17': 'g++ -std=c++17 -DC14'}.get(m, m.replace('~', ' ')) + ' ' + b.get('flags', ''))
        open(d + '/demo.sh', 'w').write(open(V + '/dev/demo.sh.in').read().replace('@RUNS@', '\n'.join(runs)))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        scratch()
        rc, o = demo(i)
        if rc: print(i, 'DEMO FAILS UNPATCHED', o); bad = 1
        r = sh(f'cd {S} && patch -s -p1 < {d}/patch.diff')
        if r.returncode: print(i, 'PATCH', r.stdout[-300:]); bad = 1
        if not bad:
            t = tests()
            if t: print(i, t); bad = 1
            rc, o = demo(i)
            if not rc: print(i, 'DEMO PASSES PATCHED'); bad = 1
            elif 'does not compile' in o and b['property'] != 'C17': print(i, 'DEMO DOES NOT COMPILE PATCHED', o[-200:]); bad = 1
        if bad: shutil.rmtree(d)
        else: print(i, b['property'], 'ok:', o.strip().splitlines()[0][:100] if o.strip() else '')
        sys.stdout.flush()
    scratch()
main()
