"""Runs the jobs of one property: harness -> LLVM IR of /repo's current tree -> gsbsym -> native confirmation -> evidence."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('GS_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('GS_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'build/engine/gsbsym')
CXX = 'clang++-18'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/dep', '-I' + REPO + '/src', '-I' + VERIF + '/harness']
HOOK = ['-DGSB_VERIF_HOOKS']
BASE = ['-std=c++17', '-w', '-fno-rtti', '-fno-exceptions', '-fopenmp', '-Wno-everything'] + HOOK + INC
WRAP = '-Wl,' + ','.join('--wrap=' + s for s in 'exit abort __assert_fail fopen fclose system'.split())
WRAPB = WRAP + ',' + ','.join('--wrap=' + s for s in 'malloc free calloc realloc aligned_alloc'.split())
CRASHY = ('oob', 'null', 'uaf', 'doublefree', 'badfree', 'mismatch', 'alloc', 'stack', 'badcall')


def sh(cmd, timeout=900, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf8', 'replace')


class Job:
    def __init__(self, name, src, defs=(), params=None, t=240, n=10**7, opts=(), bounds='', threads=2, cover=('end',), samples=3, need=True):
        self.name, self.src, self.defs, self.params, self.t, self.n = name, src, tuple(defs), dict(params or {}), t, n
        self.opts, self.bounds, self.cover, self.samples, self.need = tuple(opts), bounds, tuple(cover), samples, need
        self.err = None
        self.res = None
        self.dir = None


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='gsv-%s-' % prop['id'], dir='/tmp')
        self.lock = threading.Lock()
        self.units = {}
        self.natives = {}
        self.notes = []

    def key(self, job):
        return hashlib.sha1(repr((job.src, job.defs)).encode()).hexdigest()[:12]

    def once(self, table, k, fn):
        with self.lock:
            l = table.setdefault(k, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                l[1] = fn()
        return l[1]

    # ---------------------------------------------------------------- LLVM IR
    def stdBitcode(self):
        def build():
            o = os.path.join(self.work, 'rt_std.bc')
            rc, out = sh([CXX, '-std=c++17', '-w', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-fno-builtin', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c', VERIF + '/runtime/rt_std.cpp', '-o', o])
            return (None, out) if rc else (o, '')
        return self.once(self.units, 'rt_std', build)

    def bitcode(self, job):
        def build():
            b = os.path.join(self.work, self.key(job))
            src = os.path.join(VERIF, 'harness', job.src)
            rc, out = sh([CXX] + BASE + ['-g', '-O0', '-Xclang', '-disable-O0-optnone'] + ['-D' + d for d in job.defs] + ['-emit-llvm', '-c', src, '-o', b + '.0.bc'])
            if rc:
                return (None, out)
            bcs = [b + '.0.bc']
            if re.search(rb'basic_string|_Rb_tree|_Prime_rehash|_List_node', open(bcs[0], 'rb').read()): # link what lives in libstdc++'s shared library
                rs, out = self.stdBitcode()
                if not rs:
                    return (None, out)
                rc, out = sh(['llvm-link-18', '--only-needed', bcs[0], rs, '-o', b + '.s.bc'])
                if rc:
                    return (None, out)
                bcs = [b + '.s.bc']
            if any(d.startswith('GS_RT') for d in job.defs):
                rt = b + '.rt.bc'
                rc, out = sh([CXX, '-std=c++17', '-w', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-fno-builtin', '-U_FORTIFY_SOURCE', '-I' + VERIF + '/harness', '-emit-llvm', '-c', VERIF + '/runtime/rt.cpp', '-o', rt])
                if rc:
                    return (None, out)
                rc, out = sh(['llvm-link-18', bcs[0], rt, '-o', b + '.l.bc'])
                if rc:
                    return (None, out)
                bcs = [b + '.l.bc']
            rc, out = sh(['opt-18', '-passes=function(sroa,early-cse,instsimplify,simplifycfg,adce)', bcs[0], '-o', b + '.bc'])
            if rc:
                return (None, out)
            return (b + '.bc', '')
        return self.once(self.units, self.key(job), build)

    # ---------------------------------------------------------------- native builds
    def native(self, job, kind):
        def build():
            b = os.path.join(self.work, self.key(job) + '.' + kind)
            src = os.path.join(VERIF, 'harness', job.src)
            nat = VERIF + '/replay/gs_native.cpp'
            defs = ['-DGS_NATIVE'] + ['-D' + d for d in job.defs]
            if kind == 'B':
                cmds = [[CXX] + BASE + ['-O3', '-funroll-loops', '-ftrivial-auto-var-init=pattern', '-DGSN_TRACK'] + defs + [src, nat, WRAPB, '-o', b]]
            elif kind == 'A':
                cmds = [[CXX] + BASE + ['-O1', '-g', '-fsanitize=address'] + defs + [src, nat, WRAP, '-o', b]]
            else:
                f = [x for x in BASE]
                cmds = [[CXX] + f + ['-O1', '-g', '-fsanitize=thread'] + defs + ['-c', src, '-o', b + '.o'],
                        [CXX, '-std=c++17', '-w', '-O1', '-g', '-fsanitize=thread', '-I' + VERIF + '/harness', b + '.o', nat, VERIF + '/replay/minomp.cpp', WRAP, '-lpthread', '-o', b]]
            for c in cmds:
                rc, out = sh(c)
                if rc:
                    return (None, out)
            return (b, '')
        return self.once(self.natives, (self.key(job), kind), build)

    def run_native(self, job, kind, case, fill=None, timeout=20):
        exe, out = self.native(job, kind)
        if not exe:
            return None, 'native build failed: ' + out[-600:]
        d = tempfile.mkdtemp(prefix='n', dir=self.work)
        env = {'GS_CASE': case, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66', 'TSAN_OPTIONS': 'exitcode=66', 'OMP_WAIT_POLICY': 'passive'}
        if fill:
            env['GS_FILL'] = fill
        rc, out = sh([exe], timeout=timeout, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def confirm(self, job, e):
        """Replays a counterexample against the real code. Returns a description when the failure is reproduced."""
        case, kind, tried = e['case'], e['kind'], []
        if not case:
            return None, 'no case'

        def bad(rc, out):
            if rc is None:
                return None
            if rc == 42 or rc in (44, 45, 46):
                m = [l for l in out.splitlines() if l.startswith('REPLAY-FAIL')]
                return m[0] if m else 'failure %d' % rc
            if rc == 66 or 'AddressSanitizer' in out or 'ThreadSanitizer: data race' in out:
                m = [l for l in out.splitlines() if 'SUMMARY' in l or 'ERROR: AddressSanitizer' in l]
                return (m[0] if m else 'sanitizer report').strip()
            if rc < 0:
                return 'killed by signal %d' % -rc
            if rc == 124:
                return 'no termination' if kind == 'hang' else None
            return None

        if kind == 'race':
            for i in range(12):
                rc, out = self.run_native(job, 'C', case)
                if rc == 66 or 'ThreadSanitizer: data race' in out:
                    return bad(rc, out), ''
                tried.append('C:%s' % rc)
            return None, ' '.join(tried) + ' ' + out[-200:]
        order = [('B', None)]
        if kind in CRASHY:
            order += [('A', None)]
        if kind not in ('leak', 'mismatch', 'doublefree', 'badfree', 'hang'):
            order += [('B', '0x00'), ('B', '0xff'), ('B', '0x01')]
        out = ''
        for k, fill in order:
            rc, out = self.run_native(job, k, case, fill)
            b = bad(rc, out)
            if b:
                return b, ''
            tried.append('%s%s:%s' % (k, fill or '', rc))
        return None, ' '.join(tried) + ' ' + out[-300:].replace('\n', ' | ')

    # ---------------------------------------------------------------- engine
    def run_job(self, job, deadline):
        bc, out = self.bitcode(job)
        if not bc:
            job.err = 'compile: ' + out[-1500:]
            return job
        left = deadline - time.time()
        if left < 5:
            job.err = 'skipped: time budget used up'
            return job
        job.dir = tempfile.mkdtemp(prefix='j', dir=self.work)
        cmd = [ENGINE, bc, '-o', job.dir + '/out.json', '-c', job.dir, '-t', '%d' % min(job.t, left), '-n', str(job.n), '-s', str(job.samples)]
        for k, v in job.params.items():
            cmd += ['-p', '%s=%d' % (k, v)]
        cmd += list(job.opts)
        rc, out = sh(cmd, timeout=min(job.t, left) + 120)
        try:
            job.res = json.load(open(job.dir + '/out.json'))
        except Exception as x:
            job.err = 'engine: rc=%s %s %s' % (rc, x, out[-400:])
        return job


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def match_known(known, prop, job, e):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        m = k['match']
        if all(re.search(v, {'kind': e['kind'], 'msg': e['msg'], 'fn': e.get('fn', ''), 'job': job.name, 'stack': e['stack']}[f]) for f, v in m.items()):
            return k
    return None


def main(prop, tier, seed):
    if not os.path.exists(ENGINE):
        rc, out = sh(['make', '-s', '-j4', '-C', VERIF + '/engine'])
        if rc:
            print(out)
            return 2
    R = Runner(prop, tier, seed)
    try:
        return execute(R, prop, tier, seed)
    finally:
        shutil.rmtree(R.work, ignore_errors=True)


def execute(R, prop, tier, seed):
    pid = prop['id']
    jobs = prop['jobs'](tier)
    budget = {'quick': 420, 'thorough': 3000}[tier]
    deadline = time.time() + budget
    jobs.sort(key=lambda j: -j.t)
    known = load_known()
    replay_dir = os.path.join(EVID, 'replay', pid)
    shutil.rmtree(replay_dir, ignore_errors=True)
    violations, unconfirmed, knownhit, validated, failedval = [], [], {}, 0, []
    stop = threading.Event()
    seen = set()

    def work(job):
        nonlocal validated
        if stop.is_set():
            job.err = 'skipped: a violation is already confirmed'
            return job
        R.run_job(job, deadline)
        if job.res is None:
            return job
        # replay what the solver found
        n = 0
        for e in job.res['errors']:
            k = match_known(known, pid, job, e)
            what, why = None, ''
            with R.lock:
                key = (e['kind'], e['msg'], e.get('fn'), bool(k) and k['id'])
                dup = key in seen and n > 0
            if dup:
                continue
            n += 1
            what, why = R.confirm(job, e)
            if what:
                with R.lock:
                    seen.add(key)
                    if k:
                        knownhit.setdefault(k['id'], (k, e, what))
                        continue
                    os.makedirs(replay_dir, exist_ok=True)
                    f = os.path.join(replay_dir, 'v%d.case' % len(violations))
                    shutil.copy(e['case'], f)
                    open(f[:-5] + '.txt', 'w').write('property %s\njob %s (%s %s)\nfound by the solver: %s: %s\n  at %s\n  stack %s\nreal code: %s\n\n%s' % (pid, job.name, job.src, ' '.join(job.defs), e['kind'], e['msg'], e['loc'], e['stack'], what, open(f).read()))
                    violations.append((job, e, what, f[:-5] + '.txt'))
                if tier == 'quick':
                    stop.set()
                    break
            else:
                with R.lock:
                    unconfirmed.append({'job': job.name, 'kind': e['kind'], 'msg': e['msg'], 'fn': e.get('fn'), 'loc': e['loc'], 'imprecise': e['imprecise'], 'replay': why[:500]})
        # validate sampled paths natively
        if not stop.is_set():
            for s in job.res['samples']:
                if time.time() > deadline + 60:
                    break
                rc, out = R.run_native(job, 'B', s)
                with R.lock:
                    if rc == 0:
                        validated += 1
                    else:
                        failedval.append({'job': job.name, 'rc': rc, 'out': out[-300:]})
        return job

    with ThreadPoolExecutor(max_workers=int(os.environ.get('GS_JOBS', '8'))) as ex:
        for f in as_completed([ex.submit(work, j) for j in jobs]):
            f.result()

    # ---------------------------------------------------------------- evidence
    tot, fns, inc, bounds, samples, jobrep, covers = {}, set(), {}, [], [], [], {}
    compile_fail = [j for j in jobs if j.err and j.err.startswith('compile')]
    for j in jobs:
        if j.res is None:
            jobrep.append({'job': j.name, 'status': j.err})
            continue
        st = j.res['stats']
        for k, v in st.items():
            if k.startswith('max_') or k in ('rss_kb',):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for f in j.res['functions']:
            fns.add(f.replace(REPO + '/', ''))
        for k, v in j.res['incomplete'].items():
            inc[k.replace(REPO + '/', '')] = inc.get(k.replace(REPO + '/', ''), 0) + v
        for k, v in j.res['covers'].items():
            covers[k] = covers.get(k, 0) + v
        jobrep.append({'job': j.name, 'status': j.res['status'], 'bounds': j.bounds, 'params': j.params, 'paths': st['paths'], 'queries': st['queries'], 'solver_s': round(st['solver_s'], 3), 'wall_s': round(st['wall_s'], 2), 'covers': j.res['covers']})
        if j.res['samples'] and len(samples) < 8:
            try:
                samples.append({'job': j.name, 'case': open(j.res['samples'][-1]).read()[:1500]})
            except OSError:
                pass
    vac = [j.name for j in jobs if j.res is not None and j.res['status'] == 'complete' and not j.res['errors'] and any(not j.res['covers'].get(c) for c in j.cover)]
    complete = [j.name for j in jobs if j.res is not None and j.res['status'] == 'complete']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - R.t0, 2),
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0), 'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no path completed'}],
            'functions_encoded': sorted(fns), 'bounds': prop.get('bounds', ''), 'outside_bounds': prop.get('outside', ''),
            'jobs': jobrep, 'jobs_complete': len(complete), 'jobs_total': len(jobs),
            'queries_discharged': tot.get('queries', 0), 'queries_sat': tot.get('sat', 0), 'queries_unsat': tot.get('unsat', 0), 'queries_unknown': tot.get('unknown', 0),
            'assertions_checked': tot.get('assertions', 0), 'assertion_queries': tot.get('assertion_queries', 0), 'solver_seconds': round(tot.get('solver_s', 0), 3),
            'race_checks': tot.get('race_checks', 0), 'race_queries': tot.get('race_queries', 0), 'instructions': tot.get('instructions', 0),
            'incomplete': inc, 'covers': covers, 'vacuous_jobs': vac, 'unconfirmed_counterexamples': unconfirmed, 'native_validation_mismatches': failedval[:20],
            'peak_rss_kb': tot.get('rss_kb', 0),
        },
        'assumptions': prop.get('assumptions', []) + ['floating-point values are treated as exact numbers (no rounding)', 'LLVM 18 -O0 IR of the current tree; libc and the OpenMP runtime are modelled as stated in DESIGN.md'],
        'violations': [{'job': v[0].name, 'kind': v[1]['kind'], 'msg': v[1]['msg'], 'loc': v[1]['loc'], 'stack': v[1]['stack'], 'real_code': v[2], 'replay': v[3]} for v in violations],
        'known_findings': [k for k in knownhit],
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k, e, what in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s [%s]: %d/%d jobs complete, %d paths, %d queries, %.1f s solver, %d traces validated, %.1f s' % (pid, tier, len(complete), len(jobs), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0), validated, time.time() - R.t0))
    for j in jobs:
        if j.err and not stop.is_set():
            print('NOTE job %s: %s' % (j.name, j.err[-1200:]))
        elif j.res and j.res['status'] not in ('complete',) and not stop.is_set():
            print('NOTE job %s: %s %s' % (j.name, j.res['status'], dict(list(j.res['incomplete'].items())[:4])))
    for u in unconfirmed[:6]:
        print('NOTE not reproduced on the real code (no alarm): %s' % json.dumps(u))
    for u in failedval[:6]:
        print('NOTE native run of a sampled path differs: %s' % json.dumps(u))
    if vac:
        print('NOTE vacuous jobs: %s' % vac)
    if violations:
        for j, e, what, f in violations:
            print('  %s: %s: %s at %s in %s; real code: %s' % (j.name, e['kind'], e['msg'], e['loc'], e.get('fn'), what))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if compile_fail and len(compile_fail) == len(jobs):
        return 2
    return 0
