#!/usr/bin/env python3
"""mutation trials for the rules: dev/mut.py file.py [filter].  The file defines M = [(rule, kind, path, old, new[, nth])]
kind: 'bug' (the rule should report) or 'same' (it must stay quiet).  Works on scratch copies of /repo/include."""
import sys, os, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
flt = sys.argv[2] if len(sys.argv) > 2 else ''


def one(i, m):
    rule, kind, path, old, new = m[:5]
    nth = m[5] if len(m) > 5 else 0
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/include', d + '/include')
        p = d + '/' + path
        s = open(p).read()
        parts = s.split(old)
        if len(parts) < 2 + nth:
            return i, m, 'PATTERN NOT FOUND', ''
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, 'w').write(s)
        r = subprocess.run(['python3', 'check.py'] + [rule], cwd=here, env=dict(os.environ, BATS_REPO=d, BATS_EVID=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, m, r.returncode, r.stdout
    finally:
        shutil.rmtree(d)


todo = [(i, m) for i, m in enumerate(mod.M) if (i >= int(flt[1:]) if flt[:1] == "+" else flt in m[0] + ' ' + m[2] + str(i))]
bad = 0
with ThreadPoolExecutor(7) as ex:
    for i, m, rc, out in ex.map(lambda x: one(*x), todo):
        ok = rc == (1 if m[1] == 'bug' else 0)
        bad += not ok
        print(('ok   ' if ok else 'MISS ') + '%d %s %s %s: %s -> %s  rc=%s' % (i, m[0], m[1], m[2], ' '.join(m[3].split())[:60], ' '.join(m[4].split())[:60], rc))
        if not ok or '-v' in sys.argv:
            print('\n'.join('      ' + l[:200] for l in out.splitlines()[-6:]))
print(len(todo), 'trials', bad, 'unexpected')
