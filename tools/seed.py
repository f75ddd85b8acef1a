#!/usr/bin/env python3
"""Plants bugs in a scratch copy of /repo (/tmp/sd, bind-mounted over /repo in a private namespace) and keeps what is confirmed.

  seed.py add FILE...   each FILE: header lines 'id: / property: / needs: / breaks: / demo: core|driver|reporter X|rule X',
                        then blocks '=== path', '<<<' old '---' new '>>>', and '=== demo' with the demonstration's C++
  seed.py try ID [CHECK] apply the patch in a scratch copy and run the property's check on it (OCLCHECK_REPO)
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = '/tmp/sd'
INC = '-Ioclint-core/include -Ioclint-metrics/include -Ioclint-rules/include -Ioclint-rules -Ioclint-driver/include -Ioclint-driver -Ioclint-reporters/reporters -isystem /usr/lib/llvm-20/include'
BASE = '-std=c++17 -fno-rtti -w -O0 -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS'
CL = '-L/usr/lib/llvm-20/lib -Wl,-rpath,/usr/lib/llvm-20/lib -l:libclang-cpp.so.20.1 -lLLVM-20 -ldl -lpthread'
RULESRC = 'oclint-core/lib/*.cpp oclint-metrics/lib/*.cpp oclint-rules/lib/*.cpp oclint-rules/lib/helper/*.cpp oclint-rules/lib/util/*.cpp'


def ns(cmd, **k):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (SD, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def demo_sh(kind):
    w = kind.split()
    src = {'core': 'oclint-core/lib/*.cpp', 'driver': 'oclint-core/lib/*.cpp oclint-driver/lib/RulesetFilter.cpp', 'reporter': 'oclint-core/lib/*.cpp',
           'rule': RULESRC}.get(w[0])
    if w[0] in ('reporter', 'rule'):
        src += ' ' + w[1]
    if w[0] == 'files':
        src = ' '.join(w[1:])
    return '''#!/bin/bash
# cwd: the repository, built. Exit 0: behaves as the property says.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
pids=(); for f in "$d"/demo.cpp %s; do g++ %s -I"$d" %s -c -o "$t/$(echo "$f" | tr / _).o" "$f" & pids+=($!); done
ok=0; for p in "${pids[@]}"; do wait $p || ok=3; done; [ $ok = 0 ] || exit 3
g++ -o "$t/demo" "$t"/*.o %s || exit 3
cd "$t" && ./demo
''' % (src, BASE, INC, CL)


def add(path):
    t = open(path).read()
    head, *blocks = re.split(r'^=== (.*)\n', t, flags=re.M)
    h = dict(re.findall(r'^(\w+): *(.*)$', head, re.M))
    d = os.path.join(V, 'seeded', h['id'])
    subprocess.run(['git', '-C', SD, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', SD, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    os.makedirs(d, exist_ok=True)
    for p, body in zip(blocks[::2], blocks[1::2]):
        p = p.strip()
        if p == 'demo':
            open(os.path.join(d, 'demo.cpp'), 'w').write(body)
            continue
        f = os.path.join(SD, p)
        s = open(f).read()
        for old, new in re.findall(r'^<<<\n(.*?)^---\n(.*?)^>>>\n', body, re.M | re.S):
            if s.count(old) != 1:
                return '%s: %d matches in %s for\n%s' % (h['id'], s.count(old), p, old)
            s = s.replace(old, new)
        open(f, 'w').write(s)
    if h['demo'].split()[0] == 'rule':
        open(os.path.join(d, 'ruledemo.h'), 'w').write(open(os.path.join(V, 'tools', 'ruledemo.h')).read())
    if h['demo'].split()[0] == 'reporter' and 'repdemo.h' in open(os.path.join(d, 'demo.cpp')).read():
        open(os.path.join(d, 'repdemo.h'), 'w').write(open(os.path.join(V, 'tools', 'repdemo.h')).read())
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh(h['demo']))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': h['property'], 'needs': h['needs'], 'what_it_breaks': h['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    diff = subprocess.run(['git', '-C', SD, 'diff'], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    bad = None
    r = ns('bash /opt/vp/test.sh /tmp/sd.json')
    try:
        res = json.load(open('/tmp/sd.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('passed') or base.get('tests')
        missing = [x for x in stable if x not in set(res['passed'])]
        if missing:
            bad = 'tests fail: %s' % missing[:4]
    except Exception as e:
        bad = 'tests: %r %s' % (e, r.stdout.decode()[-1500:])
    if not bad:
        r = ns('bash %s/demo.sh' % d)
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode in (0, 3) or r0.returncode:
            bad = 'demo: %d changed, %d unchanged\n%s\n%s' % (r.returncode, r0.returncode, r.stdout.decode()[-800:], r0.stdout.decode()[-800:])
    subprocess.run(['git', '-C', SD, 'checkout', '-q', '--', '.'])
    if bad:
        subprocess.run(['rm', '-rf', d])
        return '%s: NOT KEPT %s' % (h['id'], bad)
    return '%s: kept' % h['id']


def attempt(i, chk=None):
    d = os.path.join(V, 'seeded', i)
    chk = chk or json.load(open(d + '/meta.json'))['property']
    w = '/tmp/try-' + i
    subprocess.run(['rm', '-rf', w])
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    r = subprocess.run([V + '/check', chk, '--tier', os.environ.get('TIER', 'quick')], env=dict(os.environ, OCLCHECK_REPO=w, OCLCHECK_NOEVIDENCE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.run(['rm', '-rf', w])
    o = r.stdout.decode()
    return '%s %s exit %d %s' % (i, chk, r.returncode, [l for l in o.split('\n') if 'VIOLATION' in l or 'NO-VERDICT' in l or 'no verdict' in l.lower()][:2])


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        for f in sys.argv[2:]:
            print(add(f), flush=True)
    else:
        ids = sys.argv[2:] if sys.argv[2:] != ['all'] else sorted(os.listdir(V + '/seeded'))
        for i in ids:
            print(attempt(*i.split(':')), flush=True)
