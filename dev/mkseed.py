#!/usr/bin/env python3
"""dev/mkseed.py spec.py [ids...]: creates seeded/<id> from S = [dict(id, property, edits=[(path, old, new)], needs, breaks, demo)] and
verifies it in a scratch copy: builds, stable tests pass, demo 0 / non-zero, original lines only; prints which checks report it."""
import sys, os, shutil, subprocess, tempfile, importlib.util, json, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
want = sys.argv[2:]
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = set(stable if isinstance(stable, list) else stable.get('stable') or stable.get('passed') or stable.get('tests'))
HEAD = '#include <bats.hpp>\n#include <iostream>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\n'
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the case in demo.cpp
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -fopenmp -w -Iinclude %s "$here/demo.cpp" -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s):
    log = ['== %s (%s)' % (s['id'], s['property'])]
    out = os.path.join(here, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        w = tmp + '/repo'
        run(['cp', '-a', '/repo', w])
        run(['git', 'checkout', '-q', '--', '.'], cwd=w)
        for path, old, new in s['edits']:
            p = os.path.join(w, path)
            t = open(p).read()
            nth, multi = 0, s.get('multi')
            if isinstance(old, tuple):
                (old, nth), multi = old, True
            parts = t.split(old)
            if len(parts) < 2 + nth or (len(parts) > 2 and not nth and not multi):
                return '\n'.join(log + ['   pattern occurs %d times in %s' % (len(parts) - 1, path)])
            open(p, 'w').write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        diff = run(['git', 'diff'], cwd=w).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        # removed lines must exist in the original commit
        for path in set(e[0] for e in s['edits']):
            bl = run(['git', 'diff', '-U0', '--', path], cwd=w).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', bl, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = run(['git', 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1), 'HEAD', '--', path], cwd=w).stdout
                    if any(not l.startswith('^b817046'[:8]) and not l.startswith('b817046'[:7]) for l in b.splitlines()):
                        log.append('   WARNING touches lines of our own commits: ' + b[:300])
        open(out + '/demo.cpp', 'w').write((s.get('head', HEAD)) + s['demo'])
        for nm, tx in s.get('extra', {}).items():
            open(out + '/' + nm, 'w').write(tx)
        open(out + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        a = run([out + '/demo.sh'], cwd='/repo')
        b = run([out + '/demo.sh'], cwd=w)
        log.append('   demo unchanged rc=%d, patched rc=%d%s' % (a.returncode, b.returncode, '' if a.returncode == 0 and b.returncode not in (0, 3) else '   BAD\n' + a.stdout[-1500:] + b.stdout[-1500:]))
        if '--nobuild' not in sys.argv:
            bp = open('/opt/vp/bats.py').read().replace('REPO = "/repo"', 'REPO = "%s"' % w)
            open(tmp + '/bats.py', 'w').write(bp)
            r1 = run(['python3', tmp + '/bats.py', 'build'])
            r2 = run(['python3', tmp + '/bats.py', 'test', tmp + '/o.json'])
            try:
                o = json.load(open(tmp + '/o.json'))
                miss = stable - set(o['passed'])
            except Exception as e:
                miss = ['?', r2.stdout[-500:]]
            log.append('   build rc=%d, stable tests lost: %d %s' % (r1.returncode, len(miss), list(miss)[:3] if miss else ''))
        hit = []
        rules = [s['property']] if '--own' in sys.argv else [r[:-3].upper() for r in sorted(os.listdir(here + '/rules')) if re.match(r'[a-z]\d+\.py', r)]
        for r in rules:
            c = run(['python3', 'check.py', r], cwd=here, env=dict(os.environ, BATS_REPO=w, BATS_EVID=tmp + '/ev'))
            if c.returncode == 1:
                hit.append(r)
                if r == s['property']:
                    log.append('\n'.join('      ' + l[:220] for l in c.stdout.splitlines()[:6]))
            elif c.returncode:
                hit.append(r + '(rc%d: %s)' % (c.returncode, c.stdout[-200:]))
        log.append('   %s reported by: %s %s' % ('' if a.returncode == 0 and b.returncode not in (0, 3) else 'BAD DEMO', hit, '' if s['property'] in hit else '   NOT CAUGHT'))
        return '\n'.join(log)
    finally:
        shutil.rmtree(tmp)


todo = [s for s in mod.S if not [x for x in want if not x.startswith('--')] or s['id'] in want]
with ThreadPoolExecutor(2) as ex:
    for l in ex.map(one, todo):
        print(l, flush=True)
