#!/usr/bin/env python3
"""Decides one property of oclint by symbolic execution of the real code.

  check ID [--tier quick|thorough] [--only ENTRY] [--keep]
  check --replay FILE

Everything is rebuilt from /repo's working tree: the sources a property depends on and its harness are compiled to
LLVM IR, the executor (engine/) runs the harness's entry functions on symbolic inputs, the solver decides every
branch and every assertion, and what it finds is replayed natively against the real code before it is reported.
Exit 0: held on everything explored.  1: VIOLATION lines.  2: no verdict (something could not be decided).
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OCLCHECK_REPO', '/repo')
sys.path.insert(0, VERIF)
BUILD = os.path.join(VERIF, '.build')
CLANGXX = 'clang++'
LLVM_INC = '/usr/lib/llvm-20/include'
LLVM_LIB = '/usr/lib/llvm-20/lib'
NPROC = os.cpu_count() or 8
INC = ["oclint-driver/lib", 'oclint-core/include', 'oclint-metrics/include', 'oclint-rules/include', 'oclint-rules', 'oclint-driver/include',
       'oclint-reporters/reporters', 'oclint-driver']
BASE = ['-std=c++17', '-fno-rtti', '-fno-access-control', '-w', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS']
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-ffine-grained-bitfield-accesses', '-gline-tables-only', '-emit-llvm', '-c']


class NoVerdict(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def fsha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


class Builder:
    """Content-addressed build products under .build (a cache only: keyed by everything they are made from)."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.pool = ThreadPoolExecutor(NPROC)
        self.lock = threading.Lock()
        hs = []
        for root in ('oclint-core', 'oclint-metrics', 'oclint-rules', 'oclint-driver', 'oclint-reporters'):
            for d, _, fs in os.walk(os.path.join(REPO, root)):
                if '/test' in d:
                    continue
                for f in sorted(fs):
                    if f.endswith('.h'):
                        hs.append(fsha(os.path.join(d, f)))
        for d in ('harness', 'models'):
            for f in sorted(glob.glob(os.path.join(VERIF, d, '**', '*.h'), recursive=True)):
                hs.append(fsha(f))
        self.headers = sha(*hs)
        self.overlay = os.path.join(BUILD, 'ov')
        os.makedirs(os.path.join(self.overlay, 'bits'), exist_ok=True)
        cfg = '/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h'
        ov = os.path.join(self.overlay, 'bits', 'c++config.h')
        if not os.path.exists(ov):
            t = open(cfg).read()
            t2 = re.sub(r'^# define _GLIBCXX_EXTERN_TEMPLATE 1$', '# define _GLIBCXX_EXTERN_TEMPLATE 0', t, flags=re.M)
            assert t != t2
            open(ov + '.tmp%d' % os.getpid(), 'w').write(t2)
            os.rename(ov + '.tmp%d' % os.getpid(), ov)

    def product(self, key, suffix, make):
        path = os.path.join(BUILD, key + suffix)
        if os.path.exists(path):
            return path
        tmp = path + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
        make(tmp)
        os.rename(tmp, path)
        return path

    def engine(self):
        src = sorted(glob.glob(os.path.join(VERIF, 'engine', '*')))
        key = 'engine-' + sha(*[fsha(f) for f in src])

        def make(tmp):
            rc, out = run(['bash', os.path.join(VERIF, 'engine', 'build.sh'), tmp])
            if rc:
                raise NoVerdict('the executor does not build:\n' + out[-3000:])
        return os.path.join(self.product(key, '', make), 'symex')

    def incs(self, spec):
        r = []
        for i in spec.get('overlay_includes', []):
            r += ['-I', os.path.join(VERIF, i)]
        for i in INC:
            r += ['-I', os.path.join(REPO, i)]
        r += ['-I', os.path.join(VERIF, 'harness')]
        return r + (['-isystem', LLVM_INC])

    def texthash(self, src, spec):
        """the source plus the repository sources it includes (harnesses may include .cpp files)"""
        seen = []

        def add(f):
            if f in seen or not os.path.exists(f):
                return
            seen.append(f)
            for m in re.finditer(r'^\s*#\s*include\s+[<"]([^>"]+\.(?:cpp|inc))[>"]', open(f, errors='replace').read(), re.M):
                for b in [os.path.dirname(f)] + [os.path.join(VERIF, i) for i in spec.get('overlay_includes', [])] + [os.path.join(REPO, i) for i in INC] + [os.path.join(VERIF, 'harness')]:
                    add(os.path.normpath(os.path.join(b, m.group(1))))
        add(src)
        return sha(*[fsha(f) for f in seen])

    def compile(self, src, spec, defs, ir, extra=()):
        flags = list(BASE) + list(extra) + ['-D' + d for d in defs]
        if ir:
            flags += IRF + ['-isystem', self.overlay]
        else:
            flags += ['-O0', '-g1', '-fPIC', '-c'] + (['-fsanitize=address'] if not spec.get('no_asan') else [])
        if not os.path.exists(src):
            raise NoVerdict('source file missing: ' + src)
        inc = self.incs(spec)
        key = ('bc-' if ir else 'o-') + os.path.basename(src).replace('.cpp', '') + '-' + sha(src, self.headers, self.texthash(src, spec), *flags, *inc)

        def make(tmp):
            rc, out = run([CLANGXX] + flags + inc + ['-o', tmp, src], timeout=600)
            if rc:
                raise NoVerdict('does not compile: %s\n%s' % (src, out[-3000:]))
        return self.product(key, '.bc' if ir else '.o', make)


def expand(srcs):
    r = []
    for s in srcs:
        base = VERIF if s.startswith(('harness/', 'models/')) else REPO
        g = sorted(glob.glob(os.path.join(base, s)))
        if not g:
            raise NoVerdict('source file missing: ' + s)
        r += g
    return r


class Check:
    def __init__(self, spec, tier, seed):
        if spec.get('ast'):      # programs parsed by the real clang (harness/ast.h)
            spec = dict(spec, clang=True, no_asan=True, harness=spec['harness'] + ['ast.cpp'], models=spec.get('models', []) + ['clang.cpp'], native_defs=['SYM_ARENA'])
        self.spec, self.tier, self.seed = spec, tier, seed
        self.exe = None
        self.b = Builder()
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='w-', dir=BUILD)
        self.defs = list(spec.get('defs', [])) + ['TIER_' + tier.upper()] + list(spec.get('defs_' + tier, []))
        self.entries = spec['entries'] + (spec.get('thorough_entries', []) if tier == 'thorough' else [])
        self.entries = [e if isinstance(e, dict) else {'name': e} for e in self.entries]
        if spec.get('ast'):      # an executor often waits for its parser: a few more processes than cores, entry by entry
            self.entries = [dict(e, jobs=e.get('jobs', 4)) for e in self.entries]

    def groups(self):
        """harness files, each with its own set of real sources"""
        return self.spec.get('groups') or [self.spec]

    def build_ir(self):
        futs = {}
        sub = self.b.pool.submit
        eng = sub(self.b.engine)
        models = [sub(self.b.compile, os.path.join(VERIF, 'models', m), self.spec, [], True, ['-fno-builtin']) for m in ['std.cpp', 'llvm.cpp'] + self.spec.get('models', [])]
        hs = [sub(self.b.compile, os.path.join(VERIF, 'harness', h), self.spec, self.defs, True) for h in self.spec['harness']]
        ss = [sub(self.b.compile, s, self.spec, self.spec.get('source_defs', []), True) for s in expand(self.spec.get('sources', []))]
        self.engine_bin = eng.result()
        self.bcs = [f.result() for f in models + hs + ss]

    def build_native(self):
        sub = self.b.pool.submit
        fs = [sub(self.b.compile, os.path.join(VERIF, 'harness', 'sym_native.cpp'), self.spec, self.spec.get('native_defs', []), False)]
        fs += [sub(self.b.compile, os.path.join(VERIF, 'harness', h), self.spec, self.defs + ['SYM_NATIVE'], False) for h in self.spec['harness'] + self.spec.get('native_harness', [])]
        real = expand(self.spec.get('sources', []))
        if os.environ.get('OCL_FAST'):        # (mutants) the parser's process need not have the change
            real = [s.replace(REPO + '/', '/repo/', 1) for s in real]
        fs += [sub(self.b.compile, s, self.spec, self.spec.get('source_defs', []), False) for s in real]
        objs = [f.result() for f in fs]
        exe = os.path.join(self.work, 'replay')
        cmd = [CLANGXX, '-rdynamic', '-o', exe] + objs + ([] if self.spec.get('no_asan') else ['-fsanitize=address'])
        if self.spec.get('clang'):
            cmd += ['-L' + LLVM_LIB, '-Wl,-rpath,' + LLVM_LIB, '-l:libclang-cpp.so.20.1', '-lLLVM-20']
        elif self.spec.get('llvm'):
            cmd += ['-L' + LLVM_LIB, '-Wl,-rpath,' + LLVM_LIB, '-lLLVM-20']
        cmd += ['-ldl', '-lpthread']
        rc, out = run(cmd, timeout=300)
        if rc:
            raise NoVerdict('the replay program does not link:\n' + out[-3000:])
        return exe

    def replay(self, exe, entry, inputs):
        f = os.path.join(self.work, 'in-%s-%s' % (entry, sha(json.dumps(inputs))))
        with open(f, 'w') as o:
            for n, w, v in inputs:
                o.write('%s %d %d\n' % (n.replace(' ', '_'), w, v))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_odr_violation=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            rc, out = run([exe, entry, f], timeout=60, env=env, cwd=self.work)
        except subprocess.TimeoutExpired:
            return 'timeout', [], ''
        obs = [l[4:].rsplit(' ', 1) for l in out.splitlines() if l.startswith('OBS ')]
        fails = [l[5:] for l in out.splitlines() if l.startswith('FAIL ')]
        if rc == 0:
            return 'pass', obs, out
        if rc in (3, 4, 5, 2):
            return {3: 'assumption', 4: 'diverged', 5: 'unmodelled', 2: 'error'}[rc], obs, out
        return 'fail', fails, out

    def symex(self, e):
        name = e['name']
        out = os.path.join(self.work, name + '.json')
        mt = e.get('time_' + self.tier, e.get('time', 300 if self.tier == 'quick' else 3000))
        cmd = [self.engine_bin, '--harness', name, '--out', out, '--max-time', str(mt), '--jobs', str(e.get('jobs', 1)),
               '--samples', str(e.get('samples', 4)), '--conc-limit', str(e.get('conc_limit', 1024)), '--max-viol', '1' if os.environ.get('OCL_FAST') else '40', '--max-steps', str(e.get('max_steps', 20000000))] + (['--server', self.exe, '--native', os.path.join(VERIF, 'models', 'native.txt')] if self.exe else []) + self.bcs
        t = time.time()
        try:
            rc, txt = run(cmd, timeout=mt + 120)
        except subprocess.TimeoutExpired:
            rc, txt = 99, 'time limit'
        try:
            d = json.load(open(out))
        except Exception:
            return {'name': name, 'spec': e, 'broken': 'the executor ended with %s: %s' % (rc, txt[-1500:])}
        parts = d.get('parts', [d])
        r = {'name': name, 'spec': e, 'wall': time.time() - t, 'log': txt, 'died': d.get('died', 0)}
        for k in ('paths', 'infeasible', 'instructions', 'forks', 'asserts', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'z3_queries', 'cross_checked', 'solver_seconds'):
            r[k] = sum(p[k] for p in parts)
        r['complete'] = all(p['complete'] for p in parts) and not r['died']
        r['violations'] = []
        seen = set()
        for p in parts:
            for v in p['violations']:
                if (v['kind'], v['msg']) not in seen:
                    seen.add((v['kind'], v['msg'])); r['violations'].append(v)
        r['errors'] = {}
        r['covers'] = {}
        r['labels'] = {}
        for p in parts:
            for k, n in p['errors'].items():
                r['errors'][k] = r['errors'].get(k, 0) + n
            for k, n in p['covers'].items():
                c = r['covers'].setdefault(k, [0, n[1]]); c[0] += n[0]
            for k, n in p['assert_labels'].items():
                r['labels'][k] = r['labels'].get(k, 0) + n
        r['samples'] = [s for p in parts for s in p['samples']]
        r['functions'] = sorted({(f[0], os.path.relpath(os.path.realpath(f[1]), REPO) if f[1].startswith('/') else f[1]) for p in parts for f in p['functions']})
        r['models'] = sorted({m for p in parts for m in p['models']})
        r['lines'] = {tuple(l) for p in parts for l in p['lines']}
        return r

    def go(self, only=None):
        spec = self.spec
        pid = spec['id']
        ent = [e for e in self.entries if not only or e['name'] in only]
        nat = ThreadPoolExecutor(1).submit(self.build_native)
        self.build_ir()
        if spec.get('ast'):
            self.exe = nat.result()
        tot = sum(max(1, e.get('jobs', 1)) for e in ent)
        with ThreadPoolExecutor(max(1, NPROC if all(e.get('jobs', 1) == 1 for e in ent) else 3)) as px:
            fs = [px.submit(self.symex, e) for e in ent]
            if os.environ.get('OCL_FAST'):        # (mutants) the first violation settles it
                for f in as_completed(fs):
                    v = f.result().get('violations')
                    if v:
                        print('FAST caught %s: %s' % (f.result()['name'], v[0]['msg']), flush=True)
                        shutil.rmtree(self.work, ignore_errors=True)
                        os.killpg(0, 9)
            res = [f.result() for f in fs]
        bad, viol, known = [], [], []
        for r in res:
            if 'broken' in r:
                bad.append('%s: %s' % (r['name'], r['broken'])); continue
            for k, n in r['errors'].items():
                bad.append('%s: %s (%d paths)' % (r['name'], k, n))
            if not r['complete'] and not r['errors']:
                bad.append('%s: exploration not complete within the limits' % r['name'])
            elif not r['complete']:
                bad.append('%s: not complete' % r['name'])
            if r['paths'] == 0 and not r['violations']:
                bad.append('%s: no path reaches the end (vacuous)' % r['name'])
            for c in r['spec'].get('covers', []):
                if c not in r['covers'] and not r['violations']:
                    bad.append('%s: never reached: %s (vacuous)' % (r['name'], c))
            if not r['labels'] and not r['violations']:
                bad.append('%s: no assertion reached (vacuous)' % r['name'])
        exe = None
        try:
            exe = nat.result()
        except NoVerdict as x:
            bad.append(str(x))
        validated = 0
        kf = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid] if os.path.exists(os.path.join(VERIF, 'known_findings.json')) else []
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        if exe:
            jobs = []
            for r in res:
                if 'broken' in r:
                    continue
                for v in r['violations']:
                    jobs.append((r, v))
            with ThreadPoolExecutor(NPROC) as px:
                outs = list(px.map(lambda j: self.replay(exe, j[0]['name'], j[1]['inputs']), jobs))
            for (r, v), (st, fails, out) in zip(jobs, outs):
                ok = st == 'fail' and (v['kind'] != 'assert' or v['msg'] in fails or not fails)
                if v['kind'] == 'steps':
                    ok = st in ('timeout', 'fail')
                if st == 'fail' and not ok:
                    ok = True       # another assertion of the same run fails first
                if not ok:
                    bad.append('%s: counterexample for "%s %s" was not confirmed by the native replay (%s): the encoding or a model is wrong\n  inputs %s\n%s' % (r['name'], v['kind'], v['msg'], st, json.dumps(v['inputs'])[:600], out[-600:]))
                    continue
                match = [k for k in kf if k['entry'] == r['name'] and k['label'] == v['msg']]
                if match:
                    known.append(match[0]); continue
                os.makedirs(rdir, exist_ok=True)
                f = os.path.join(rdir, '%s-%s-%s.json' % (pid, r['name'], sha(v['kind'], v['msg'])[:8]))
                json.dump({'property': pid, 'entry': r['name'], 'tier': self.tier, 'kind': v['kind'], 'assertion': v['msg'], 'where': v['where'], 'inputs': v['inputs'], 'native_output': out[-4000:]}, open(f, 'w'), indent=1)
                viol.append((r, v, f))
            # passing paths: the executor's prediction against the native run
            jobs = [(r, s) for r in res if 'broken' not in r for s in r['samples'][:r['spec'].get('samples', 4)]]
            with ThreadPoolExecutor(NPROC) as px:
                outs = list(px.map(lambda j: self.replay(exe, j[0]['name'], j[1]['inputs']), jobs))
            for (r, s), (st, obs, out) in zip(jobs, outs):
                want = [[o[0], str(o[1])] for o in s['observed']]
                got = [[o[0], o[1]] for o in obs] if st == 'pass' else None
                if st == 'pass' and got == want:
                    validated += 1
                elif not r['violations']:
                    bad.append('%s: native run of a passing path disagrees (%s): predicted %s, got %s\n  inputs %s\n%s' % (r['name'], st, want[:8], (got or [])[:8], json.dumps(s['inputs'])[:600], out[-800:]))
        ok = [r for r in res if 'broken' not in r]
        S = lambda k: sum(r[k] for r in ok)
        fns = sorted({f for r in ok for f in r['functions']})
        samples = []
        for r in ok:
            for s in r['samples'][:2]:
                samples.append({'entry': r['name'], 'inputs': {i[0]: i[2] for i in s['inputs'][:40]}, 'observed': s['observed'][:20]})
        import props
        pr = [p for p in props.PROPS if p['id'] == pid]
        bounds = spec.get('bounds_' + self.tier) or spec.get('bounds') or ((pr[0]['text'] + (' (figures in brackets: the thorough check)' if '(' in pr[0]['text'] else '')) if pr else '')
        ev = {
            'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': S('paths') + S('infeasible') + S('forks'), 'transitions': S('instructions'),
                'traces_validated_against_impl': validated, 'samples': samples[:40],
                'meaning': 'states: symbolic execution states created (paths completed, infeasible ends, forks); transitions: LLVM instructions executed symbolically; traces: completed paths whose solver-made inputs were run natively against the real code with identical observations',
                'paths_completed': S('paths'), 'assertions_evaluated': S('asserts'), 'solver_queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'),
                'solver_cache_hits': S('cache_hits'), 'z3_queries': S('z3_queries'), 'cross_checked_with_z3': S('cross_checked'), 'solver_seconds': round(S('solver_seconds'), 3),
                'functions_encoded': ['%s [%s]' % f for f in fns], 'functions_encoded_count': len(fns),
                'repo_lines_executed': len({l for r in ok for l in r['lines']}),
                'models_used': sorted({m for r in ok for m in r['models']}),
                'bounds': bounds, 'outside': spec.get('outside', ''),
                'entries': [{'entry': r['name'], 'paths': r['paths'], 'queries': r['queries'], 'asserts': r['labels'], 'covers': {k: c[0] for k, c in r['covers'].items()}, 'complete': r['complete'], 'seconds': round(r['wall'], 2)} for r in ok],
                'inconclusive': [b[:400] for b in bad], 'known_findings': sorted({k['id'] for k in known}),
            },
            'assumptions': spec.get('assumptions', []), 'violations': len(viol), 'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        for r in ok:
            print('%-28s paths %-7d queries %-7d asserts %-7d solver %.1fs wall %.1fs%s' % (r['name'], r['paths'], r['queries'], r['asserts'], r['solver_seconds'], r['wall'], '' if r['complete'] else '  INCOMPLETE'))
        if os.environ.get("OCL_LOG"):
            for r in ok:
                print(r["log"][-6000:])
        print('%s: %d paths, %d solver queries, %d functions of the repository encoded, %d native replays, %.1fs' % (pid, S('paths'), S('queries'), len(fns), validated, time.time() - self.t0))
        for k in {k['id']: k for k in known}.values():
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        for r, v, f in viol:
            print('  %s: %s: %s\n    at %s\n    inputs %s' % (r['name'], v['kind'], v['msg'], v['where'][:600], ' '.join('%s=%d' % (i[0], i[2]) for i in v['inputs'])[:1500]))
        for b in bad[:None if os.environ.get('OCL_ALLNV') else 8]:
            print('NO-VERDICT: ' + b)
        if len(bad) > 8:
            print('NO-VERDICT: and %d more' % (len(bad) - 8))
        for r, v, f in viol:
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1 if viol else 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    from checks import CHECKS
    sys.stdout.reconfigure(line_buffering=True)
    if a.setup:
        b = Builder(); print(b.engine()); return 0
    if a.replay:
        d = json.load(open(a.replay)); c = Check(CHECKS[d['property']], d['tier'], 1)
        try:
            st, fails, out = c.replay(c.build_native(), d['entry'], d['inputs'])
            print(out); print(st)
            return 1 if st == 'fail' else 0
        finally:
            shutil.rmtree(c.work, ignore_errors=True)
    c = Check(CHECKS[a.id], a.tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        return c.go(a.only)
    except NoVerdict as x:
        print('NO-VERDICT: ' + str(x))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(c.work, ignore_errors=True)


sys.exit(main())
