#!/usr/bin/env python3
"""seed.py FILE: makes and confirms the planted bugs described in FILE (not read by any check).
FILE is Python code calling bug(id, prop, pkg, needs, breaks, edits, test, imports).
edits: list of (file, old, new) or (file, k, old, new), k counting the occurrences from 0."""
import subprocess, sys, os, json, re
REPO, SEED = '/repo', '/verif/seeded'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package %(pkg)s, through an overlay.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$ov"
go test -overlay "$ov" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
only = sys.argv[2:]
results = []
def bug(id, prop, pkg, needs, breaks, edits, test, imports=''):
    if only and id not in only: return
    assert sh('git status --porcelain').stdout.strip() == '', 'repo dirty'
    d = os.path.join(SEED, id); os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            f, old, new = e[0], e[-2], e[-1]
            k = e[1] if len(e) == 4 else None
            p = os.path.join(REPO, f); s = open(p).read()
            n = s.count(old)
            if k is None:
                assert n == 1, '%s: %s: %d occurrences of %r' % (id, f, n, old)
                k = 0
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            open(p, 'w').write(s[:i] + new + s[i + len(old):])
        diff = sh('git diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        name = pkg.split('/')[-1]
        imps = ''.join('\t"%s"\n' % i for i in ['testing'] + imports.split())
        open(os.path.join(d, 'demo_test.go'), 'w').write('package %s\n\nimport (\n%s)\n\n%s' % (name, imps, test.strip('\n') + '\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'pkg': pkg})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(id, 'DOES NOT BUILD', b.stdout); results.append(id); return
        t = sh("bash /opt/vp/test.sh /tmp/w/seed.out >/dev/null 2>&1; python3 - <<'P'\nimport json\nb=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/seed.out'))\nok=b.get('stable') or b.get('stable_tests') or b.get('passed')\nbad=[x for x in ok if x not in o['passed']]\nprint('BAD '+str(bad[:4]) if bad else 'OK')\nP")
        tests = t.stdout.strip()
        bad = sh('bash %s/demo.sh' % d, timeout=400)
        an = sh('timeout 800 /tmp/w/an -id %s -verif /tmp/w/vv' % prop)
        caught = an.returncode == 1 and ('VIOLATION property=%s ' % prop) in an.stdout
    except AssertionError as e:
        print(id, 'EDIT FAILED', e); sh('git checkout -q -- .'); import shutil; shutil.rmtree(d); return
    finally:
        sh('git checkout -q -- .')
    good = sh('bash %s/demo.sh' % d, timeout=400)
    flag = 'ok ' if tests == 'OK' and bad.returncode and not good.returncode and 'build failed' not in bad.stdout else 'BAD'
    print('%s %-28s tests:%s demo good:%d bad:%d  %s' % (flag, id, tests, good.returncode, bad.returncode, 'CAUGHT' if caught else 'MISSED'))
    if flag == 'BAD': print('  GOOD:', good.stdout[-900:], '\n  BAD:', bad.stdout[-900:])
    if not caught: print('   ', an.stdout[-500:])
    sys.stdout.flush()
    if flag == 'ok ':
        rp = os.path.join(os.path.dirname(SEED), 'tools', 'seed_results.json')
        r = json.load(open(rp)) if os.path.exists(rp) else {}
        r[id] = prop if caught else ''
        json.dump(r, open(rp, 'w'), indent=1, sort_keys=True)
exec(open(sys.argv[1]).read())
