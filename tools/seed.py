#!/usr/bin/env python3
"""seed.py SPEC...: build one planted bug from a spec file, confirm it in a scratch copy and store it in /verif/seeded.

A spec is a Python file that sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ body of main;
it may use CHK(cond)), optional HEAD (includes and globals) and FILES {name: text}.
"""
import json, os, shutil, subprocess, sys
SC = '/tmp/sc'
ROOT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Run in the repository after its build: exit 0 if the behaviour is right, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -w -D_DEBUG -DLINUX -DFMT_SHARED -I"$PWD/FCollada" -I"$PWD/FColladaPlugins" -I"$PWD/_build" -I/usr/include/libxml2 \\
    "$D/demo.cpp" "$PWD/_build/libFColladaSD.a" -lxml2 -lfmt -ldl -o "$T/demo" || exit 3
cd "$T" && ulimit -c 0 && timeout 60 ./demo
'''
PRE = '''#include "StdAfx.h"
#include "FCollada.h"
%s
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define CHK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %%d: %%s\\n", __LINE__, #c); fflush(stderr); _Exit(1); } } while (0)
static FUAssertion::FUAssertCallback quiet_assert = [](bool) -> const char* { return NULL; };
%s
int main()
{
\tFUAssertion::SetAssertionFailedCallback(&quiet_assert);
%s
\tfflush(NULL); _Exit(0);
}
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if not os.path.isdir(SC + '/.git'):
        r = sh(f'git clone -q /repo {SC}'); assert r.returncode == 0, r.stdout
    r = sh(f'git fetch -q origin && git checkout -q -f {head} && git clean -fdq -e _build', SC); assert r.returncode == 0, r.stdout
    return head
def build():
    e = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DBUILD_DOCS=OFF -DCMAKE_PROJECT_FCollada_INCLUDE=/opt/vp/harness/inject.cmake >/dev/null && ninja -C _build all FColladaTestVP', SC, env=e)
    return r.returncode == 0, r.stdout[-3000:]
def tests():
    run = SC + '/_build/vp-run'; shutil.rmtree(run, True); os.makedirs(run + '/work')
    sh(f'cp {SC}/FCollada/FColladaTest/Samples/* {run}/work/; : > {run}/raw')
    sh(f'ulimit -c 0; VP_RESULTS={run}/raw timeout -k 10 600 {SC}/_build/FColladaTestVP < /dev/null', run + '/work')
    sh(f'python3 /opt/vp/harness/names.py {run}/raw {run}/lines && python3 /opt/vp/results.py {run}/out.json lines:{run}/lines')
    o = json.load(open(run + '/out.json')); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return b - set(o['passed'])
def apply(edits):
    for f, a, b in edits:
        p = f'{SC}/{f}'; s = open(p, newline='').read()
        if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w', newline='').write(s.replace(a, b))
def record(i, p, needs, breaks, caught):
    f = '/verif/tools/planted.json'; t = json.load(open(f)) if os.path.exists(f) else {}
    t[i] = dict(property=p, needs=needs, breaks=breaks, caught=caught); t = {k: t[k] for k in sorted(t) if os.path.isdir(f'{ROOT}/{k}')}
    json.dump(t, open(f, 'w'), indent=1)
    s = open('/verif/DESIGN.md').read(); a, b = s.split('<!-- seeds -->')[0], s.split('<!-- /seeds -->')[1]
    rows = ''.join(f"| {k} | {v['property']} | {v['breaks']} | {v['needs']} | {'yes' if v['caught'] else 'NO'} |\n" for k, v in t.items())
    open('/verif/DESIGN.md', 'w').write(a + '<!-- seeds -->\n| planted bug | property | what it breaks | what it needs | caught by its quick check |\n|---|---|---|---|---|\n' + rows + '<!-- /seeds -->' + b)
def main():
    check = '--no-check' not in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
        n = {}; exec(open(spec).read(), n)
        d = f"{ROOT}/{n['ID']}"
        scratch(); os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(PRE % (n.get('HEAD', ''), n.get('GLOB', ''), n['DEMO']))
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        for k, v in n.get('FILES', {}).items(): open(f'{d}/{k}', 'w').write(v)
        json.dump({'property': n['PROPERTY'], 'needs': n['NEEDS'], 'what_it_breaks': n['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        ok, out = build(); assert ok, out
        r0 = sh(f'bash {d}/demo.sh', SC)
        apply(n['EDITS'])
        diff = subprocess.run('git diff --binary', shell=True, cwd=SC, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        # lines the fix commits added must not be touched
        base = 'f2e9420'
        ok, out = build()
        if not ok: print(spec, 'DOES NOT BUILD', out); shutil.rmtree(d); continue
        r1 = sh(f'bash {d}/demo.sh', SC); t = tests()
        own = 0; f = o = None
        for l in diff.decode('utf8', 'replace').split('\n'):
            if l.startswith('--- a/'): f = l[6:].strip()
            elif l.startswith('@@'): o = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and f and o: b = sh(f"git blame -s -L {o},{o} HEAD -- '{f}'", SC).stdout; own += base in b.split(')')[0]; o += 1
            elif l.startswith(' ') and o: o += 1
        if not own: print(n['ID'], 'changes no original line')
        bad = r0.returncode != 0 or r1.returncode == 0 or t or r1.returncode == 3 or not own
        print(n['ID'], n['PROPERTY'], 'demo clean', r0.returncode, 'demo bug', r1.returncode, 'tests lost', t or 'none', 'REJECTED' if bad else 'ok')
        if bad: print(r0.stdout[:700], r1.stdout[:700]); 
        if bad and '--keep' not in sys.argv: shutil.rmtree(d)
        if check and not bad:
            e = dict(os.environ, PBT_REPO=SC, PBT_BUILD='/tmp/scb', VERIF_SEED='1', VERIF_TIER='quick')
            r = sh(f"/verif/check {n['PROPERTY']}", '/verif', env=e)
            record(n['ID'], n['PROPERTY'], n['NEEDS'], n['BREAKS'], r.returncode == 1 and f"VIOLATION property={n['PROPERTY']}" in r.stdout)
            print('   check:', r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'failed' in l][:3])
    scratch()
main()
