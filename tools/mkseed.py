#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NTH NEEDS BREAKS DEMO.cpp : plant a change in a scratch copy of /repo, confirm it
builds, passes the stable tests, and that the demonstration tells the trees apart; then store it in seeded/ID."""
import sys, os, subprocess, shutil, json, tempfile
ID, PROP, FILE, OLD, NEW, NTH, NEEDS, BREAKS, DEMO = sys.argv[1:10]
if OLD.startswith('@'):
    OLD = open(OLD[1:]).read(); NEW = open(NEW[1:]).read()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
r = os.path.join(wt, 'repo')
subprocess.check_call(['cp', '-a', '/repo', r])
p = os.path.join(r, FILE)
s = open(p).read()
parts = s.split(OLD)
n = int(NTH)
assert len(parts) > n + 1, 'occurrence %d of the text not found (%d)' % (n, len(parts) - 1)
s = OLD.join(parts[:n + 1]) + NEW + OLD.join(parts[n + 1:])
open(p, 'w').write(s)
d = os.path.join(V, 'seeded', ID)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
if DEMO != '-':
    shutil.copy(DEMO, os.path.join(d, 'demo.cpp'))
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds on these executions.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
repo=$PWD
g++ -std=gnu++17 -O1 -w -I"$repo/include" -o "$t/demo" "$here/demo.cpp" "$repo"/src/*.cpp || exit 2
cd "$t" && timeout 120 ./demo
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
# build + tests in a throwaway build dir (same sources as /opt/vp/build.sh uses)
b = os.path.join(wt, 'b')
os.makedirs(b)
ok = subprocess.run('cmake %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null 2>&1 && ninja >/dev/null 2>&1 && ctest 2>&1 | tail -4' % r, shell=True, cwd=b, stdout=subprocess.PIPE).stdout.decode()
good = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo').returncode
bad = subprocess.run([os.path.join(d, 'demo.sh')], cwd=r).returncode
print(ID, 'tests:', ok.strip().splitlines()[0] if ok.strip() else 'BUILD FAILED', '| demo unchanged:', good, 'patched:', bad)
shutil.rmtree(wt)
