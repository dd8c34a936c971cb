#!/usr/bin/env python3
"""Runs the checks of one property: run_check.py [--tier T] [--dev] [--only REGEX] ID
   or replays a recorded counterexample:  run_check.py --replay FILE

Steps: compile /repo's current sources (and the harness) to LLVM bitcode; run the symbolic executor over
every job of the property; replay what it reports, and a sample of the paths it decided, against a native
sanitizer build of the same sources; write evidence/<ID>.json."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 2))
MEM = 3 << 30
T0 = time.time()
BUDGET = {'quick': 240.0, 'thorough': 800.0}
BC_FLAGS = ('-c -emit-llvm -g -O0 -Xclang -disable-O0-optnone -fno-builtin '
            '-fsanitize=signed-integer-overflow,shift-exponent,float-cast-overflow -fsanitize-trap=all -std=gnu11 '
            '-D_GNU_SOURCE -DRCUTILS_BUILDING_DLL -w').split()
NATIVE_FLAGS = ('-g -O1 -U_FORTIFY_SOURCE -fno-builtin -fno-omit-frame-pointer -std=gnu11 -D_GNU_SOURCE -DRCUTILS_BUILDING_DLL -DVP_NATIVE -w '
                '-fsanitize=address,signed-integer-overflow,shift-exponent,float-cast-overflow,integer-divide-by-zero,unreachable,return,vla-bound '
                '-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern').split()
MEMCHECK_FLAGS = '-g -O0 -U_FORTIFY_SOURCE -fno-builtin -std=gnu11 -D_GNU_SOURCE -DRCUTILS_BUILDING_DLL -DVP_NATIVE -w'.split()


def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd,
                          preexec_fn=lim if mem else None, errors='replace')


class BuildError(Exception):
    pass


class Builder:
    """Compiles on demand; every distinct (source, flags) once."""

    def __init__(self, scratch):
        self.d = scratch
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.gen()

    def gen(self):
        inc = os.path.join(self.d, 'include', 'rcutils')
        os.makedirs(inc)
        hdr = os.path.join(inc, 'logging_macros.h')
        em = os.path.join(REPO, 'resource/logging_macros.h.em')
        r = sh(['/usr/bin/python3', '-B', '-c',
                'import em,sys; em.invoke(["-o", sys.argv[1], "-D", "rcutils_module_path=\\"%s\\"" % sys.argv[2], sys.argv[3]])',
                hdr, REPO, em], timeout=120)
        if r.returncode or not os.path.exists(hdr):
            raise BuildError('cannot generate logging_macros.h: ' + r.stdout[-2000:])
        self.inc = ['-I' + os.path.join(self.d, 'include'), '-I' + REPO + '/include', '-I' + REPO + '/src',
                    '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'harness')]

    def once(self, key, fn):
        with self.lock:
            f = self.futs.get(key)
            if f is None:
                f = self.futs[key] = self.pool.submit(fn)
        return f

    def compile(self, cc, flags, src, kind):
        key = ('obj', kind, src, tuple(flags))
        name = hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '_' + os.path.basename(src) + ('.bc' if kind == 'bc' else '.o')
        out = os.path.join(self.d, name)

        def go():
            cmd = [cc] + flags + self.inc + [src, '-o', out]
            r = sh(cmd, timeout=300)
            if r.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
            return out
        return self.once(key, go)

    def sources(self, job):
        skip = {'time_win32.c'}
        if job['err'] == 'stub':
            skip.add('error_handling.c')
        if job['log'] == 'stub':
            skip.add('logging.c')
        skip |= set(job['omit'])
        src = [s for s in sorted(glob.glob(REPO + '/src/**/*.c', recursive=True)) if os.path.basename(s) not in skip]
        return src

    def lib(self, job):
        l = [VERIF + '/lib/vp_alloc.c']
        if job['err'] == 'stub':
            l.append(VERIF + '/lib/vp_err_stub.c')
        if job['log'] == 'stub':
            l.append(VERIF + '/lib/vp_log_stub.c')
        return l

    def bitcode(self, job):
        d = ['-D' + x for x in job['defs']]
        fs = [self.compile('clang-18', BC_FLAGS + d, s, 'bc') for s in self.sources(job) + self.lib(job)]
        fs.append(self.compile('clang-18', BC_FLAGS + d, VERIF + '/lib/vp_libc.c', 'bc'))
        fs.append(self.compile('clang-18', BC_FLAGS + d, VERIF + '/harness/' + job['harness'], 'bc'))
        return fs

    def native(self, job, zero=False):
        # locals that are read before they are set hold a pattern, or zeros (zero=True), or are found by memcheck (zero='memcheck')
        key = ('native', zero, job['harness'], job['err'], job['log'], tuple(job['defs']), tuple(job['omit']), tuple(job['wrap']), bool(job['threads']))
        out = os.path.join(self.d, 'n_' + hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        d = ['-D' + x for x in job['defs']]
        wrap = ['-Wl,--wrap=' + w for w in job['wrap']]
        with self.lock:
            f = self.futs.get(key)
            if f is not None:
                return f
            f = self.futs[key] = cf.Future()
        try:
            if job['threads']:
                bcs = [x.result() for x in
                       [self.compile('clang-18', BC_FLAGS + d + ['-DVP_NATIVE'], s, 'bc') for s in self.sources(job) + self.lib(job)
                        + [VERIF + '/harness/' + job['harness']]]]
                ins = out + '.bc'
                r = sh([VPX] + bcs + ['--instrument', ins], timeout=300)
                if r.returncode:
                    raise BuildError(r.stdout)
                rt = self.compile('clang-18', ['-c', '-g', '-O1', '-D_GNU_SOURCE', '-w'], VERIF + '/lib/vp_native.c', 'nt').result()
                cmd = ['clang-18', '-w', ins, rt, '-o', out] + wrap + ['-lpthread', '-ldl', '-lm']
            else:
                flags = ['-c'] + (MEMCHECK_FLAGS if zero == 'memcheck' else NATIVE_FLAGS + (['-ftrivial-auto-var-init=zero'] if zero else [])) + d
                objs = [x.result() for x in
                        [self.compile('gcc', flags, s, 'nat') for s in self.sources(job) + self.lib(job)
                         + [VERIF + '/lib/vp_native.c', VERIF + '/harness/' + job['harness']]]]
                cmd = ['gcc'] + ([] if zero == 'memcheck' else ['-fsanitize=address,undefined']) + objs + ['-o', out] + wrap + ['-lpthread', '-ldl', '-lm']
            r = sh(cmd, timeout=300)
            if r.returncode:
                raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
            f.set_result(out)
        except Exception as e:  # noqa: BLE001
            f.set_exception(e)
        return f


def native_run(exe, job, inputs, sched, scratch, fill, memcheck=False):
    fd, path = tempfile.mkstemp(dir=scratch, suffix='.vals')
    with os.fdopen(fd, 'w') as f:
        f.write(' '.join(str(x) for x in inputs))
        f.write('\nS ' + ' '.join(str(x) for x in sched) + '\n')
    wd = tempfile.mkdtemp(dir=scratch)
    env = {'PATH': '/usr/bin:/bin', 'HOME': wd, 'LC_ALL': 'C', 'TZ': 'UTC', 'VP_FILL': str(fill), 'VP_SHOW_COVER': '1',
           'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_malloc_fill_size=4096:malloc_fill_byte=%d:detect_stack_use_after_return=1' % fill,
           'UBSAN_OPTIONS': 'print_stacktrace=1'}
    for k, v in job['params'].items():
        env['VPP_' + k] = str(v)
    try:
        if memcheck:
            r = sh(['valgrind', '-q', '--track-origins=yes', '--fullpath-after=', '--num-callers=20', exe, path], timeout=200, env=env, cwd=wd)
            rc, out = 0, r.stdout
            for block in re.split(r'\n==\d+== ?\n', out):
                # an answer that depends on memory nobody set, decided inside the implementation
                m = re.search(r'ninitialised value', block)
                made = re.search(r'created by a stack allocation\s+==\d+==\s+at 0x\w+: (\w+) \((%s/\S+?)\)' % re.escape(REPO), block)
                if m and made:
                    rc, out = 99, 'MEMCHECK: %s returns a value that was never set (%s)\n' % made.groups() + out
                    break
                at = re.search(r'(?:at|by) 0x\w+: (\w+) \((%s/\S+?|%s/\S+?)\)' % (re.escape(REPO), re.escape(VERIF)), block)
                if m and at and at.group(2).startswith(REPO + '/'):
                    rc, out = 99, 'MEMCHECK: %s decides on a value that was never set (%s)\n' % at.groups() + out
                    break
        else:
            r = sh([exe, path], timeout=40, env=env, cwd=wd)
            rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = -14, 'timeout'
    finally:
        shutil.rmtree(wd, ignore_errors=True)
        os.unlink(path)
    return rc, out


def describe(rc, out):
    m = re.search(r'VP_ASSERT_FAILED: (.*)', out)
    if rc == 77 and m:
        return 'assertion failed: ' + m.group(1)
    m = re.search(r'MEMCHECK: (.*)', out)
    if m:
        return m.group(1)
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
    if m:
        where = re.search(r'#\d+ \S+ in (\S+) (/repo/\S+)', out)
        return 'AddressSanitizer: ' + m.group(1) + (' in %s %s' % where.groups() if where else '')
    m = re.search(r'(/\S+: runtime error: .*)', out)
    if m:
        return m.group(1)
    if rc == -14:
        return 'does not terminate'
    if rc < 0:
        return 'killed by signal %d' % -rc
    return 'exit status %d' % rc


def ensure_engine():
    out = os.path.join(VERIF, 'build')
    exe = os.path.join(out, 'vpx')
    os.makedirs(out, exist_ok=True)
    import fcntl
    with open(os.path.join(out, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-C', VERIF + '/engine', 'OUT=' + out], timeout=900)
        if r.returncode:
            print(r.stdout[-4000:])
            sys.exit(3)
    return exe


class Slots:
    """Cores: a job that runs in n processes takes n of them."""

    def __init__(self, n):
        self.n = self.free = n
        self.cv = threading.Condition()

    def take(self, k):
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


def run_job(job, bcs, out, deadline, slots):
    """Returns the list of result records of the job's processes."""
    n = min(job['parts'], slots.n)
    slots.take(n)
    try:
        left = deadline - time.time()
        if left < 3:
            return [{'error': 'not started within the time budget'}]
        cmd = [VPX] + bcs + ['--out', out, '--time', '%.0f' % min(job['time'], left), '--preempt', str(job['preempt']),
                             '--samples', str(job['samples']), '--steps', str(job['steps']), '--parts', str(n)]
        for k, v in job['params'].items():
            cmd += ['--param', '%s=%d' % (k, v)]
        try:
            if os.environ.get('VPX_TRACE'):
                cmd = ['sh', '-c', ' '.join("'%s'" % c for c in cmd) + ' > /tmp/vpx_out 2>&1']
            r = sh(cmd, timeout=min(job['time'], left) + 60, mem=MEM)
        except subprocess.TimeoutExpired:
            return [{'error': 'the engine exceeded its time limit'}]
        res = []
        outs = [out] + ['%s.%d' % (out, i) for i in range(1, n + 1)]
        try:
            with open(out) as f:
                res.append(json.load(f))
        except Exception:  # noqa: BLE001
            return [{'error': 'engine exit %s: %s' % (r.returncode, r.stdout[-300:])}]
        split = [o for o in outs[1:] if os.path.exists(o)]
        if n > 1 and split and len(split) != n:
            res.append({'error': 'an engine process ended without a result'})
        elif n > 1 and not split and not res[0]['finished_alone']:
            res.append({'error': 'the engine processes ended without a result'})
        for o in split:
            try:
                with open(o) as f:
                    res.append(json.load(f))
            except Exception:  # noqa: BLE001
                res.append({'error': 'unreadable engine result'})
        return res
    finally:
        slots.give(n)


def load_known(prop):
    """Lines `KNOWN property=<id> job=<name> :: text`: a job that explores exactly the failing inputs of a recorded defect."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) job=(\S+) :: (.*)', l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def job_name(job):
    return job['name'] or '%s(%s)' % (job['harness'][:-2], ','.join('%s=%s' % kv for kv in job['params'].items()))


def main():
    global VPX
    args = sys.argv[1:]
    dev = '--dev' in args
    if dev:
        args.remove('--dev')
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    replay = None
    pos = []
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--only':
            only = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        else:
            pos.append(a)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    VPX = ensure_engine()
    scratch = tempfile.mkdtemp(prefix='vpx.')
    try:
        if replay:
            return do_replay(replay, scratch)
        return check(pos[0], tier, seed, scratch, dev, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path, scratch):
    rec = json.load(open(path))
    b = Builder(scratch)
    job = rec['job']
    mode = rec.get('report', {}).get('zero_init', False)
    exe = b.native(job, zero=mode).result()
    bad = False
    for fill in rec.get('fills', [0xA5, 0, 0xFF]):
        rc, out = native_run(exe, job, rec['inputs'], rec['sched'], scratch, fill, memcheck=mode == 'memcheck')
        print('fill 0x%02x: exit %d: %s' % (fill, rc, describe(rc, out)))
        if rc not in (0, 66):
            bad = True
            print(out[-3000:])
            break
    return 1 if bad else 0


def check(prop, tier, seed, scratch, dev, only):
    spec = CHECKS[prop]
    rng = random.Random(seed)
    deadline = T0 + BUDGET[tier] * (10 if dev and os.environ.get('VP_NOLIMIT') else 1)
    jobs = [j for j in spec['jobs'] if (j['tier'] in ('both', tier)) and (not only or re.search(only, job_name(j)))]
    known = load_known(prop)
    try:
        b = Builder(scratch)
        # compile everything first; a tree that does not compile is an error of the tree, not a violation
        for j in jobs:
            j['bcs'] = [f.result() for f in b.bitcode(j)]
    except BuildError as e:
        print('BUILD-ERROR: ' + str(e)[-3000:])
        return 3
    tb = time.time() - T0
    slots = Slots(NCPU)
    with cf.ThreadPoolExecutor(64) as ex:
        tasks = [ex.submit(run_job, j, j['bcs'], os.path.join(scratch, 'r_%d.json' % ji), deadline, slots) for ji, j in enumerate(jobs)]
        results = [f.result() for f in tasks]
    # ---- gather
    tot = dict.fromkeys(['paths', 'assumed_away', 'forks', 'instructions', 'assertions', 'safety_checks', 'queries', 'sat', 'unsat',
                         'unknown', 'confirmed', 'refuted', 'domain_queries', 'model_hits', 'implied', 'solver_s'], 0)
    functions = set()
    inconclusive = []
    jobrows = []
    reports = []
    cover_seen, cover_hit = set(), set()
    samples = []
    for ji, j in enumerate(jobs):
        complete = True
        row = {'job': job_name(j), 'params': j['params'], 'paths': 0, 'queries': 0, 'solver_s': 0.0, 'wall_s': 0.0}
        for r in results[ji]:
            if 'error' in r:
                complete = False
                inconclusive.append('%s: %s' % (job_name(j), r['error']))
                continue
            for k in tot:
                tot[k] += r[k]
            row['paths'] += r['paths']
            row['queries'] += r['queries']
            row['solver_s'] = round(row['solver_s'] + r['solver_s'], 2)
            row['wall_s'] = round(max(row['wall_s'], r['wall_s']), 2)
            for fn, file in r['functions']:
                if file.startswith(REPO) or '/include/rcutils/logging_macros.h' in file:
                    functions.add(fn)
            if not r['complete']:
                complete = False
                why = 'unmodelled: ' + '; '.join(r['unmodelled']) if r['unmodelled'] else 'unknown answers: %d' % r['unknown'] if r['unknown'] else 'time budget, %d states pending' % r['pending']
                inconclusive.append('%s: %s' % (job_name(j), why))
            for l, v in r['covers'].items():
                cover_seen.add((j['harness'], l))
                if v is not None:
                    cover_hit.add((j['harness'], l))
            for s in r['samples']:
                samples.append((ji, s))
            for rep in r['reports']:
                reports.append((ji, rep))
        row['complete'] = complete
        jobrows.append(row)
    uncovered = sorted('%s: %s' % x for x in cover_seen - cover_hit)
    if dev:
        for r in jobrows:
            print('  %-50s paths %-7d queries %-8d solver %-7.1fs wall %-6.1fs %s' % (r['job'], r['paths'], r['queries'], r['solver_s'], r['wall_s'], 'complete' if r['complete'] else 'INCOMPLETE'))
    # ---- replay reports
    confirmed, unconfirmed, known_hits = [], [], []
    fills = [0xA5, 0x00, 0xFF, 0x61]
    per_job = {}
    todo = []
    for ji, rep in reports:
        per_job.setdefault(ji, 0)
        per_job[ji] += 1
        if per_job[ji] <= 12:
            todo.append((ji, rep))

    def replay_one(item):
        ji, rep = item
        try:
            exe = b.native(jobs[ji]).result()
        except Exception as e:  # noqa: BLE001
            return ji, rep, None, 'native build failed: ' + str(e)[-1500:], 0
        last = (0, '')
        for fill in fills:
            rc, out = native_run(exe, jobs[ji], rep['inputs'], rep['sched'], scratch, fill)
            if rc not in (0, 66):
                return ji, rep, rc, out, fill
            last = (rc, out)
        if not jobs[ji]['threads']:
            exe = b.native(jobs[ji], zero=True).result()
            rc, out = native_run(exe, jobs[ji], rep['inputs'], rep['sched'], scratch, 0)
            if rc not in (0, 66):
                rep['zero_init'] = True
                return ji, rep, rc, out, 0
            try:
                exe = b.native(jobs[ji], zero='memcheck').result()
                rc, out = native_run(exe, jobs[ji], rep['inputs'], rep['sched'], scratch, 0, memcheck=True)
            except Exception:  # noqa: BLE001
                rc, out = 0, ''
            if rc == 99:
                rep['zero_init'] = 'memcheck'
                return ji, rep, rc, out, 0
        return ji, rep, last[0], last[1], fills[-1]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ji, rep, rc, out, fill in ex.map(replay_one, todo):
            j = jobs[ji]
            if rc in (0, 66, None):
                unconfirmed.append({'job': job_name(j), 'report': {k: rep[k] for k in ('kind', 'msg', 'loc', 'stack')}, 'native': rc, 'note': out[-500:] if rc is None else ''})
                continue
            if j['name'] in known:
                known_hits.append((j['name'], describe(rc, out)))
                continue
            confirmed.append((j, rep, rc, out, fill))
    # ---- validate a sample of decided paths against the implementation
    rng.shuffle(samples)
    seen_jobs = {}
    pick = []
    cap = spec['validate'] if tier == 'quick' else spec['validate'] * 4
    for ji, s in samples:
        if jobs[ji]['name'] in known or not jobs[ji]['validate']:
            continue
        seen_jobs[ji] = seen_jobs.get(ji, 0) + 1
        if len(pick) < cap:
            pick.append((ji, s))
    validated = 0
    disagreements = []

    def val_one(item):
        ji, s = item
        try:
            exe = b.native(jobs[ji]).result()
        except Exception as e:  # noqa: BLE001
            return ji, s, None, 'native build failed: ' + str(e)[-1500:]
        rc, out = native_run(exe, jobs[ji], s['inputs'], s['sched'], scratch, 0xA5)
        return ji, s, rc, out
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ji, s, rc, out in ex.map(val_one, pick):
            if rc == 0:
                validated += 1
            elif rc == 77 or (rc not in (None, 66, -14, 65) and 'ERROR: AddressSanitizer' in out) or (rc is not None and rc < 0 and rc != -14):
                confirmed.append((jobs[ji], {'kind': 'native', 'msg': 'path decided symbolically fails natively', 'loc': '', 'stack': '', 'inputs': s['inputs'], 'sched': s['sched']}, rc, out, 0xA5))
            else:
                disagreements.append({'job': job_name(jobs[ji]), 'rc': rc, 'out': out[-300:], 'inputs': s['inputs'][:200]})
    # ---- report
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    seen = set()
    for j, rep, rc, out, fill in confirmed:
        d = describe(rc, out)
        if (job_name(j), d) in seen and not dev:
            continue
        seen.add((job_name(j), d))
        h = hashlib.sha1(json.dumps([job_name(j), rep['inputs'], rep['sched']]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        jj = {k: v for k, v in j.items() if k != 'bcs'}
        json.dump({'property': prop, 'job': jj, 'inputs': rep['inputs'], 'sched': rep['sched'], 'fills': [fill], 'report': rep, 'native': d,
                   'how': 'python3 vp/run_check.py --replay ' + path, 'native_output': out[-4000:]}, open(path, 'w'), indent=1)
        lines.append((d, j, rep, path))
    for name in known:
        hits = [d for n, d in known_hits if n == name]
        if hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[name]))
    for d, j, rep, path in lines[:20]:
        print('  %s | %s | %s %s' % (job_name(j), d, rep['kind'], rep['msg']))
        print('    inputs %s' % ' '.join(str(x) for x in rep['inputs'][:60]))
        if rep.get('stack'):
            print('    at %s' % rep['stack'][:300])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if tot['refuted']:
        inconclusive.append('the solver contradicts %d verdicts of the engine' % tot['refuted'])
    ok = not inconclusive and not uncovered and not unconfirmed and not disagreements
    for x in inconclusive[:20]:
        print('INCONCLUSIVE: ' + x[:600])
    for x in uncovered:
        print('UNREACHED: ' + x)
    for x in unconfirmed[:20]:
        print('UNCONFIRMED: ' + json.dumps(x)[:900])
    for x in disagreements[:10]:
        print('DISAGREEMENT: ' + json.dumps(x)[:900])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'],
        'coverage': {
            'states': tot['paths'] + tot['forks'], 'transitions': tot['instructions'],
            'traces_validated_against_impl': validated,
            'samples': [{'job': job_name(jobs[ji]), 'path_inputs': s['inputs'][:64], 'schedule': s['sched'][:64]} for ji, s in samples[:5]],
            'exhaustive': ok and not confirmed,
            'explanation': 'states: execution paths decided plus case splits, each for every symbolic value consistent with it; transitions: IR instructions '
                           'executed symbolically; traces validated: inputs of decided paths re-run against the native sanitizer build with all assertions passing.',
            'functions_encoded': sorted(functions), 'jobs': jobrows, 'bounds': spec['bounds'],
            'paths': tot['paths'], 'assertions_decided': tot['assertions'], 'safety_checks_decided': tot['safety_checks'],
            'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 2), 'decided_by_witness_or_propagation': tot['implied'] + tot['domain_queries'] + tot['model_hits'],
            'of_these_confirmed_by_the_solver': tot['confirmed'],
            'inconclusive': inconclusive[:50], 'unreached_covers': uncovered, 'unconfirmed_reports': unconfirmed[:50], 'disagreements': disagreements[:20],
            'covers_reached': sorted('%s: %s' % x for x in cover_hit), 'known_findings': [n for n, _ in known_hits], 'build_s': round(tb, 2),
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(time.time() - T0, 2), 'violations': len(lines),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d assertions and %d safety checks decided, %d solver queries (%.1f s), %d traces validated, %d violations%s, %.1f s'
          % (prop, tier, len(jobs), tot['paths'], tot['assertions'], tot['safety_checks'], tot['queries'], tot['solver_s'], validated, len(lines),
             '' if ok else ', NOT fully decided', time.time() - T0))
    return 1 if lines else 0


if __name__ == '__main__':
    sys.exit(main())
