#!/usr/bin/env python3
"""Decides one property: compiles its harnesses together with /repo's current sources to LLVM IR, executes them
symbolically (build/symex), replays every counterexample natively against the real code, and writes the evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-j N]
exit 0: every assertion discharged; 1: violation (line "VIOLATION property=.. replay=.."); 2: no answer
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time, importlib

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
B = os.path.join(ROOT, 'build')
SYMEX = os.path.join(B, 'symex')
sys.path.insert(0, ROOT)

INC = {
    'planner': ['planner_cspace/include'],
    'tracker': ['trajectory_tracker/include'],
    'odom': ['track_odometry/include'],
    'all': ['planner_cspace/include', 'trajectory_tracker/include', 'track_odometry/include', 'costmap_cspace/include',
            'neonavigation_common/include', 'map_organizer/include', 'safety_limiter/include', 'joystick_interrupt/include'],
}
IRFLAGS = ['-O2', '-g', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
           '-fno-math-errno', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-threadsafe-statics', '-w']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_engine():
    os.makedirs(B, exist_ok=True)
    r = sh(['make', '-s', '-C', os.path.join(ROOT, 'engine'), '-j8'])
    if r.returncode:
        print(r.stdout + r.stderr)
        sys.exit(3)
    for n in ('models', 'clock'):
        m = os.path.join(B, n + '.bc')
        src = os.path.join(ROOT, 'rt', n + '.cpp')
        if not os.path.exists(m) or os.path.getmtime(m) < os.path.getmtime(src):
            r = sh(['clang++', '-std=c++17'] + IRFLAGS + [src, '-o', m + '.tmp%d' % os.getpid()])
            if r.returncode:
                print(r.stderr)
                sys.exit(3)
            os.replace(m + '.tmp%d' % os.getpid(), m)


def gen_cfg(out):
    """the structs dynamic_reconfigure would generate from the repository's .cfg files"""
    import glob
    for f in glob.glob(os.path.join(REPO, '*/cfg/*.cfg')):
        pkg = f.split('/')[-3]
        name = os.path.basename(f)[:-4]
        fields = []
        for t, n, d in re.findall(r'gen\.add\(\s*["\'](\w+)["\']\s*,\s*(\w+)_t\s*,[^,]+,\s*(?:"[^"]*"|\'[^\']*\')\s*,\s*([^,)]+)', open(f).read(), re.S):
            fields.append((t, n, d.strip()))
        ct = {'double': 'double', 'int': 'int', 'bool': 'bool', 'str': 'std::string'}
        body = ['#pragma once', '#include <string>', 'namespace %s {' % pkg, 'struct %sConfig {' % name]
        body += ['  %s %s = %s;' % (ct[t], n, d.lower() if t == 'bool' else d) for n, t, d in fields]
        body += ['  static %sConfig __getDefault__() { return %sConfig(); }' % (name, name), '};', '}', '']
        p = os.path.join(out, pkg, name + 'Config.h')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('\n'.join(body))


STOP = threading.Event()
NATIVE = threading.Lock()


class Unit:
    """one harness source plus the repository sources it is linked with"""

    def __init__(self, prop, spec):
        self.src = os.path.join(ROOT, 'harness', spec['src'])
        self.std = spec.get('std', 17)
        self.inc = [os.path.join(ROOT, 'rt'), os.path.join(ROOT, 'stubs/base')] + [os.path.join(ROOT, x) for x in spec.get('stubs', [])] + \
            [os.path.join(REPO, x) for x in INC[spec.get('inc', 'all')]] + [os.path.join(REPO, x) for x in spec.get('inc_extra', [])] + \
            ['/usr/include/eigen3']
        self.repo_src = [os.path.join(REPO, x) for x in spec.get('repo', [])]
        self.extra = [os.path.join(ROOT, 'harness', x) for x in spec.get('extra', [])]
        self.flags = spec.get('flags', [])
        self.name = re.sub(r'\W', '_', spec['src'])
        self.dir = os.path.join(B, prop)
        if spec.get('stubs'):
            gen_cfg(os.path.join(self.dir, 'gen'))
            self.inc.insert(0, os.path.join(self.dir, 'gen'))
        self.bc = os.path.join(self.dir, self.name + '.bc')
        self.native = {}
        self.locks = {}
        self.objs = {}

    def common(self):
        return ['-std=c++%d' % self.std] + ['-I' + x for x in self.inc] + self.flags

    def clang(self, flags, rest):
        """clang rejects one construct g++ accepts here (a default argument used in a class before the class is complete).
        The diagnostic names the call and the default; an overlay copy of the header gets the argument written out."""
        ov = os.path.join(self.dir, 'overlay')
        for _ in range(6):
            r = sh(['clang++'] + flags + (['-I' + ov] if os.path.isdir(ov) else []) + self.common() + rest)
            if r.returncode == 0:
                return r
            calls = re.findall(r"^(\S+?):(\d+):(\d+): error: use of default argument to function '\w+' that is declared later.*\n(?:.*\n){1,4}?"
                               r"(\S+?):(\d+):(\d+): note: default argument declared here", r.stderr, re.M)
            if not calls:
                return r
            done = set()
            for cfile, cl, cc, dfile, dl, dc in calls:
                if (cfile, cl) in done:
                    continue
                done.add((cfile, cl))
                real = cfile if os.path.exists(cfile) else None
                text = open(real).read().split('\n')
                orig = real
                off = 0
                if real.startswith(ov):
                    off = 1
                inc = [i for i in self.inc if real.startswith(i + '/')]
                rel = os.path.relpath(real, inc[0]) if inc else os.path.relpath(real, ov)
                dtext = open(dfile).read().split('\n')[int(dl) - 1][int(dc) - 1:]
                m = re.match(r'=?\s*([\w:+\-]+)', dtext)
                if not m:
                    return r
                line = text[int(cl) - 1]
                # the call's closing parenthesis
                i = line.index('(', int(cc) - 1)
                depth = 0
                for k in range(i, len(line)):
                    depth += {'(': 1, ')': -1}.get(line[k], 0)
                    if depth == 0:
                        break
                else:
                    return r
                text[int(cl) - 1] = line[:k] + ', ' + m.group(1) + line[k:]
                out = os.path.join(ov, rel)
                os.makedirs(os.path.dirname(out), exist_ok=True)
                body = '\n'.join(text)
                open(out, 'w').write(body)
        return r

    def compile_ir(self):
        def one(a):
            o = os.path.join(self.dir, '%s_%d.bc' % (self.name, a[0]))
            return a[1], o, self.clang(IRFLAGS, [a[1], '-o', o])
        todo = list(enumerate([self.src] + self.extra + self.repo_src))
        res = [one(todo[0])]
        with cf.ThreadPoolExecutor(8) as ex:
            res += list(ex.map(one, todo[1:]))
        objs = []
        for s, o, r in res:
            if r.returncode:
                return 'compiling %s:\n%s' % (s, r.stderr[-4000:])
            objs.append(o)
        r = sh(['llvm-link-18'] + objs + [os.path.join(B, 'models.bc'), os.path.join(B, 'clock.bc'), '-o', self.bc])
        if r.returncode:
            return 'linking: ' + r.stderr[-3000:]
        return None

    def compile_native(self, entry, variant='asan'):
        k = (entry, variant)
        with NATIVE:
            lock = self.locks.setdefault(k, threading.Lock())
        with lock:
            if k not in self.native:
                self.native[k] = self.build_native(entry, variant)
            return self.native[k]

    def build_native(self, entry, variant):
        out = os.path.join(self.dir, '%s.%s.%s' % (self.name, entry, variant))
        fl = ['-O1', '-g', '-w', '-ffp-contract=off', '-DSX_ENTRY=' + entry]
        fl += {'asan': ['-fsanitize=address'], 'zero': ['-ftrivial-auto-var-init=zero'], 'pattern': ['-ftrivial-auto-var-init=pattern'],
               'plain': []}[variant]
        # what does not depend on the entry is compiled once
        with NATIVE:
            lock = self.locks.setdefault(variant, threading.Lock())
        with lock:
            if variant not in self.objs:
                def one(a):
                    o = os.path.join(self.dir, '%s.%s.%d.o' % (self.name, variant, a[0]))
                    return o, self.clang([x for x in fl if 'SX_ENTRY' not in x], ['-c', a[1], '-o', o])
                todo = [os.path.join(ROOT, 'rt/clock.cpp')] + self.extra + self.repo_src
                with cf.ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(one, enumerate(todo)))
                for o, r in res:
                    if r.returncode:
                        sys.stderr.write(r.stderr[-3000:])
                self.objs[variant] = None if [1 for o, r in res if r.returncode] else [o for o, r in res]
        if self.objs[variant] is None:
            return None
        r = self.clang(fl, [self.src, os.path.join(ROOT, 'rt/native.cpp')] + self.objs[variant] +
                       ['-lboost_chrono', '-lboost_thread', '-lboost_system', '-lpthread', '-o', out])
        if r.returncode:
            sys.stderr.write(r.stderr[-3000:])
            out = None
        return out


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, v in inputs:
            f.write('%s %s\n' % (n, v))


def run_native(binp, inp, params, timeout=20, env=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=1000000000:malloc_fill_byte=190'
    e['OMP_NUM_THREADS'] = '1'
    e.update(env or {})
    cmd = ['prlimit', '--core=0', binp, inp] + ['%s=%d' % kv for kv in params.items()]
    try:
        r = sh(cmd, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    except UnicodeDecodeError:
        return None, 'garbled'
    return r.returncode, r.stdout[-4000:] + r.stderr[-6000:]


def replay(unit, job, v, base):
    """does the counterexample fail on the real code?"""
    inp = base + '.inputs'
    write_inputs(inp, v['inputs'])
    tried = []
    for variant in (['asan', 'zero', 'pattern', 'plain'] if v.get('uninit') else ['asan']):
        b = unit.compile_native(job['entry'], variant)
        if not b:
            return False, 'native build failed'
        envs = [{}]
        if v.get('uninit'):
            envs = [{'MALLOC_PERTURB_': str(x)} for x in (0, 1, 127, 255)] if variant != 'asan' else \
                [{'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66:max_malloc_fill_size=1000000000:malloc_fill_byte=%d' % x} for x in (0, 1, 127, 190, 255)]
        for env in envs:
            rc, out = run_native(b, inp, job.get('params', {}), env=env)
            tried.append((variant, env, rc))
            bad = rc not in (0, 77, 78, 79, 126, 127) if rc is not None else True
            if rc is None and v['kind'] != 'hang' and 'step' not in v['label']:
                bad = False
            if bad:
                with open(base + '.log', 'w') as f:
                    f.write('kind %s label %s at %s\nvariant %s env %s exit %s\nparams %s\n\n%s\nsymbolic stack: %s\n' %
                            (v['kind'], v['label'], v['where'], variant, env, rc, job.get('params', {}), out, v.get('stack')))
                with open(base + '.sh', 'w') as f:
                    f.write('#!/bin/sh\n# rebuilds the harness natively against %s and runs the counterexample\n' % REPO)
                    f.write('exec python3 %s --replay %s %s %s "$@"\n' % (os.path.join(ROOT, 'check.py'), unit.prop, job['name'], inp))
                return True, out
    return False, 'not reproduced natively: %s\n%s' % (tried, out)


def run_job(job, unit, tier, deadline, more=1):
    out = os.path.join(unit.dir, job['name'] + '.json')
    if os.path.exists(out):
        os.remove(out)
    t = max(5, min(job.get('max_time', 240 if tier == 'quick' else 3000) * more, deadline - time.time()))
    cmd = [SYMEX, unit.bc, '--entry', job['entry'], '--out', out, '--repo', REPO + '/', '--max-time', str(int(t)),
           '--max-mb', str(job.get('max_mb', 3600)), '--solver-ms', str(job.get('solver_ms', 20000) * more), '--max-viol', '6']
    for k, v in job.get('params', {}).items():
        cmd += ['--param', '%s=%d' % (k, v)]
    cmd += job.get('opts', [])
    t0 = time.time()
    if STOP.is_set():
        return job, -1, None, 'stopped', 0.0
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    log = []
    th = threading.Thread(target=lambda: log.append(p.stdout.read()))
    th.start()
    while p.poll() is None:
        if STOP.is_set() or time.time() - t0 > t + 60:
            p.kill()
        time.sleep(0.05)
    th.join()
    d = None
    if os.path.exists(out):
        with open(out) as f:
            d = json.load(f)
    return job, p.returncode, d, ''.join(log)[-5000:], time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--replay', action='store_true')
    ap.add_argument('rest', nargs='*')
    a = ap.parse_args()
    t0 = time.time()
    ensure_engine()
    prop = a.prop
    P = importlib.import_module('props').PROPS[prop]
    d = os.path.join(B, prop)
    shutil.rmtree(d, ignore_errors=True) if not a.replay else None
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    deadline = t0 + (840 if a.tier == 'quick' else 6 * 3600)
    units = {}
    jobs = []
    for spec in P['units']:
        u = Unit(prop, spec)
        u.prop = prop
        units[u.name] = u
        for j in spec['jobs']:
            shards = [None]
            if 'shards' in j:
                shards = j['shards'](a.tier)
            elif a.tier == 'thorough' and j.get('quick_only'):
                continue
            if a.tier == 'quick' and j.get('thorough_only'):
                continue
            for k, s in enumerate(shards):
                jj = dict(j)
                jj['params'] = dict(j.get('params', {}))
                if a.tier == 'thorough':
                    jj['params'].update(j.get('thorough', {}))
                if s:
                    jj['params'].update(s)
                jj['name'] = '%s.%s.%d' % (u.name, j['entry'], k) if 'tag' not in j else '%s.%s.%s.%d' % (u.name, j['entry'], j['tag'], k)
                jj['unit'] = u
                jobs.append(jj)
    if a.replay:
        name, inp = a.rest
        j = [x for x in jobs if x['name'] == name][0]
        b = j['unit'].compile_native(j['entry'])
        rc, out = run_native(b, inp, j['params'])
        print(out, 'exit', rc)
        sys.exit(0 if rc == 0 else 1)
    if a.only:
        jobs = [j for j in jobs if a.only in j['name']]
    used = {j['unit'].name for j in jobs}
    errors, violations, known = [], [], {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for u, e in zip(used, ex.map(lambda n: units[n].compile_ir(), used)):
            if e:
                errors.append(e)
    if errors:
        print('\n'.join(errors))
        print('ERROR property=%s: the harness does not compile against the current tree' % prop)
        sys.exit(3)
    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, by_bv=0, by_fp=0, by_arith_unsat=0,
               by_arith_sat=0, by_search=0, by_box=0, by_ext=0, cache_hits=0)
    solver_s = maxq = 0.0
    checks, funcs, bounds, samples, libm, reach_all = {}, {}, [], [], {}, {}
    reached_by_entry = {}
    validated = reported = 0
    jobs.sort(key=lambda j: -j.get('cost', 1))
    with cf.ThreadPoolExecutor(a.j) as ex:
        futs = [ex.submit(run_job, j, j['unit'], a.tier, deadline) for j in jobs]
        # the native builds used to validate the translation run beside the symbolic ones
        nat = {}
        for j in jobs:
            k = (j['unit'].name, j['entry'])
            if k not in nat:
                nat[k] = ex.submit(j['unit'].compile_native, j['entry'])
        # jobs without an answer run once more, with more time and less beside them
        again = []

        def results():
            for f in cf.as_completed(futs):
                yield f.result() + (True,)
            if not again or reported or deadline - time.time() < 60:
                for x in again:
                    yield x + (False,)
                return
            with cf.ThreadPoolExecutor(max(1, a.j // 2)) as ex2:
                for f in cf.as_completed([ex2.submit(run_job, x[0], x[0]['unit'], a.tier, deadline, 6) for x in again]):
                    yield f.result() + (False,)
        for j, rc, r, log, dt, first in results():
            if first and (r is None and not STOP.is_set() or r is not None and r['inconclusive'] and not r['violations']):
                again.append((j, rc, r, log, dt))
                continue
            if r is None:
                if STOP.is_set():
                    continue
                errors.append('%s: symex exit %s\n%s' % (j['name'], rc, log))
                continue
            for k in tot:
                tot[k] += r.get(k, 0)
            solver_s += r['solver_s']
            maxq = max(maxq, r['max_query_s'])
            for l, c in r['checks'].items():
                x = checks.setdefault(l, [0, 0, 0])
                x[0] += c['reached']; x[1] += c['by_solver']; x[2] += c['trivial']
            for l, c in r['reach'].items():
                reached_by_entry.setdefault((j['unit'].name, j['entry']), {})
                e = reached_by_entry[(j['unit'].name, j['entry'])]
                e[l] = e.get(l, 0) + c
            for l, c in r['known'].items():
                known[l] = known.get(l, 0) + c
            for l, c in r['libm'].items():
                libm[l] = libm.get(l, 0) + (c if isinstance(c, int) else 1)
            for fl, fs in r['functions'].items():
                funcs.setdefault(fl, set()).update(fs)
            bounds.append({'job': j['name'], 'params': r['params'], 'paths': r['paths'], 'queries': r['queries'], 'solver_s': round(r['solver_s'], 2), 'wall_s': round(dt, 2)})
            for w in r['inconclusive']:
                errors.append('%s: %s' % (j['name'], w))
            for n, v in enumerate(r['violations']):
                violations.append((j, v, n))
                if reported >= 3:
                    continue
                base = os.path.join(d, 'cex_%s_%d' % (j['name'], n))
                ok, out = replay(j['unit'], j, v, base)
                if ok:
                    print('violation [%s] %s at %s (reproduced on the real code; details in %s.log)' % (v['kind'], v['label'], v['where'], base))
                    print('VIOLATION property=%s replay=%s.sh' % (prop, base))
                    sys.stdout.flush()
                    reported += 1
                    STOP.set()
                else:
                    errors.append('counterexample not reproduced natively: %s [%s] %s at %s inputs %s\n%s' % (j['name'], v['kind'], v['label'], v['where'], v['inputs'][:40], out[-600:]))
            for n, s in enumerate(r['samples'][:3]):
                samples.append((j, s, n))
    # translation validation: models of completed paths run on the real code
    sample_out = []

    def vrun(x):
        j, s, n = x
        b = j['unit'].compile_native(j['entry'])
        if not b:
            return x, None, 'native build failed'
        inp = os.path.join(d, 'sample_%s_%d.inputs' % (j['name'], n))
        write_inputs(inp, s['inputs'])
        rc, out = run_native(b, inp, j['params'], timeout=60)
        return x, rc, out
    if not reported:
        picked, seen = [], {}
        for x in samples:
            k = x[0]['name']
            if seen.get(k, 0) < 3 and len(picked) < 60:
                seen[k] = seen.get(k, 0) + 1
                picked.append(x)
        with cf.ThreadPoolExecutor(a.j) as ex:
            for x, rc, out in ex.map(vrun, picked):
                if rc == 0:
                    validated += 1
                elif rc == 77:
                    pass  # an assumption over uninterpreted values does not hold for this model
                else:
                    errors.append('translation check: %s sample %d ends with %s natively\n%s' % (x[0]['name'], x[2], rc, (out or '')[-1500:]))
    for j, s, n in samples[:4]:
        sample_out.append({'job': j['name'], 'inputs': s['inputs'][:60]})
    # vacuity: every witness a harness promises was reached
    if not a.only and not reported:
        for spec in P['units']:
            for j in spec['jobs']:
                if a.tier == 'quick' and j.get('thorough_only'):
                    continue
                got = reached_by_entry.get((re.sub(r'\W', '_', spec['src']), j['entry']), {})
                for l in j.get('reach', []):
                    if not got.get(l):
                        errors.append('vacuous: %s never reaches "%s"' % (j['entry'], l))
    for l in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    discharged = sum(c[1] for c in checks.values())
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated,
            'samples': sample_out or [{'note': 'no completed path'}],
            'exhaustive': not errors and not violations,
            'explanation': P['explanation'],
            'assertions': {l: {'evaluated_on_paths': c[0], 'discharged_by_solver': c[1], 'decided_by_constant_folding': c[2]} for l, c in sorted(checks.items())},
            'assertion_instances': sum(c[0] for c in checks.values()), 'assertions_discharged_by_solver': discharged,
            'witnesses_reached': {'%s:%s' % (k[1], l): c for k, v in reached_by_entry.items() for l, c in v.items()},
            'functions_encoded': {k: sorted(v) for k, v in sorted(funcs.items())},
            'solver': dict(tot, solver_s=round(solver_s, 2), max_query_s=round(maxq, 2)),
            'libm_calls_abstracted': libm, 'bounds': P['bounds'], 'jobs': bounds, 'inconclusive': errors,
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': reported,
    }
    if not a.only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d assertion instances (%d by solver), %d queries, solver %.1fs, %d traces validated, wall %.1fs' %
          (prop, a.tier, len(jobs), tot['paths'], sum(c[0] for c in checks.values()), discharged, tot['queries'], solver_s, validated, wall))
    if reported:
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print('INCONCLUSIVE: ' + e)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
