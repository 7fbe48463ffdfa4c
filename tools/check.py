#!/usr/bin/env python3
"""Runs the monitors of one property.   usage: check.py PROPERTY [--only MODE]

Environment: VERIF_TIER (quick|thorough), VERIF_SEED.
Exit 0: nothing observed against the property (listed findings are printed as KNOWN-FINDING).
Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run (build failure, harness error).
"""
import os, sys, re, json, time, signal, shutil, subprocess, tempfile, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B
from props import PROPS

NCPU = os.cpu_count() or 8


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    return known


def base_env(tmp, flavour):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('HXHIM_', 'OMPI_', 'PMIX_', 'ASAN_', 'TSAN_', 'UBSAN_', 'LSAN_'))}
    e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_plm='isolated', OMPI_MCA_plm_rsh_agent='/bin/false',
             TMPDIR=tmp, HOME=tmp, LC_ALL='C')
    supp = os.path.join(VERIF, 'tools', 'supp')
    if flavour == 'asan':
        e['ASAN_OPTIONS'] = 'detect_leaks=1:halt_on_error=1:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_segv=1:max_allocation_size_mb=4096:detect_odr_violation=0:malloc_context_size=14:fast_unwind_on_malloc=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        e['LSAN_OPTIONS'] = 'suppressions=%s/lsan.txt:print_suppressions=0:exitcode=0' % supp
    elif flavour == 'tsan':
        e['TSAN_OPTIONS'] = 'suppressions=%s/tsan.txt:halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:ignore_noninstrumented_modules=1:print_suppressions=0' % supp
    else:
        e['MALLOC_PERTURB_'] = '165'
        e['MALLOC_CHECK_'] = '3'
    return e


FRAME = re.compile(r'^\s*#\d+\s+0x[0-9a-f]+\s+in\s+(.+?)\s+(\S+:\d+|\(\S+\))', re.M)


def short(fn):
    # function name without templates, arguments and namespaces that vary between compilers
    fn = re.sub(r'\(.*', '', fn)
    while '<' in fn and re.search(r'<[^<>]*>', fn):
        fn = re.sub(r'<[^<>]*>', '', fn)
    return fn.strip().replace(' ', '_')


def repo_frame(txt):
    for m in re.finditer(r'#\d+\s+0x[0-9a-f]+\s+in\s+(.+?)\s+(/\S+?):(\d+)', txt):
        if m.group(2).startswith(B.REPO + '/'):
            return short(m.group(1)) + '@' + os.path.basename(m.group(2))
    m = re.search(r'#\d+\s+0x[0-9a-f]+\s+in\s+(\S+)', txt)
    return short(m.group(1)) if m else 'unknown'


def classify(stderr, rc, flavour):
    """-> list of (key, excerpt) for what the sanitizers or the OS reported"""
    out = []
    for m in re.finditer(r'==\d+==ERROR: AddressSanitizer: ([\w-]+)(.*?)(?=\n==\d+==ABORTING|\nSUMMARY|\Z)', stderr, re.S):
        out.append(('asan:%s:%s' % (m.group(1), repo_frame(m.group(0))), m.group(0)[:2500]))
    for m in re.finditer(r'(\S+?):(\d+):\d+: runtime error: ([^\n]*)', stderr):
        what = re.sub(r'-?\b0x[0-9a-f]+\b|-?\b[\d.]+(e[+-]?\d+)?\b', 'N', m.group(3))[:60].strip().replace(' ', '_')
        out.append(('ubsan:%s:%s' % (os.path.basename(m.group(1)), what), stderr[m.start():m.start() + 1500]))
    if 'LeakSanitizer: detected memory leaks' in stderr:
        for blk in re.split(r'\n(?=(?:Direct|Indirect) leak of)', stderr):
            if blk.startswith('Direct leak of'):
                out.append(('leak:%s' % repo_frame(blk), blk[:1500]))
    for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]+)(.*?)\n={10,}', stderr, re.S):
        out.append(('tsan:%s:%s' % (m.group(1).strip().replace(' ', '-'), repo_frame(m.group(0))), m.group(0)[:3000]))
    if not out and rc is not None and rc != 0:
        sig = -rc if rc < 0 else (rc - 128 if 128 < rc < 160 else 0)
        name = signal.Signals(sig).name if sig in [s.value for s in signal.Signals] else 'exit%d' % rc
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", stderr)
        if m:
            name += ':' + m.group(1)
        m = re.search(r'Assertion|assertion', stderr)
        out.append(('crash:' + name, stderr[-1500:]))
    return out


class Job:
    def __init__(self, prop, spec, idx, start, cases, seed):
        self.prop, self.spec, self.idx, self.start, self.cases, self.seed = prop, spec, idx, start, cases, seed


GRACE = 60     # how long other processes go on after a violation
STOP = {'at': None, 'known': {}}


def stopped():
    return STOP['at'] is not None and time.time() > STOP['at'] + GRACE


def run_job(job, workdir):
    r = run_job_(job, workdir)
    if STOP['at'] is None and any((job.prop, f['key']) not in STOP['known'] for f in r['fails']):
        STOP['at'] = time.time()
    return r


def run_job_(job, workdir):
    s = job.spec
    if stopped():
        return dict(job=job, rc=0, timed_out=False, hung=False, fails=[], known=[], samples=[], stats={}, distinct={}, done=0, lastcase=-1, argv=[], env={}, wall=0, err='')
    flavour = s.get('flavour', 'plain')
    tmp = tempfile.mkdtemp(prefix='j', dir=workdir)
    binp = os.path.join(B.BUILD, flavour, s['driver'])
    argv = [binp, '--seed', str(job.seed), '--start', str(job.start), '--cases', str(job.cases), '--mode', s.get('mode', ''),
            '--dir', tmp]
    if s.get('extra'):
        argv += ['--extra', s['extra']]
    if s.get('thorough'):
        argv += ['--thorough']
    np_ = s.get('np', 0)
    env = base_env(tmp, flavour)
    env.update(s.get('env', {}))
    if np_:
        env['PRTE_MCA_ras_base_launch_orted_on_hn'] = '0'
        env['PMIX_MCA_gds'] = 'hash'   # its shared memory segments need addresses that the sanitizers use
        argv = ['mpirun', '-np', str(np_), '--oversubscribe', '--bind-to', 'none'] + argv
        if flavour == 'asan':
            env['ASAN_OPTIONS'] += ':log_path=' + tmp + '/san'
    else:
        env['OMPI_MCA_ess_singleton_isolated'] = '1'
        env['OMPI_MCA_btl'] = 'self'
    of, ef = open(tmp + '/.out', 'wb'), open(tmp + '/.err', 'wb')
    t0 = time.time()
    p = subprocess.Popen(argv, stdout=of, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=tmp, start_new_session=True)
    timed_out, aborted, rc = False, False, None
    while True:
        try:
            rc = p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() > t0 + s.get('timeout', 240):
                timed_out = True
                break
            if stopped():
                aborted = True
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    of.close(); ef.close()
    out = open(tmp + '/.out', errors='replace').read()
    err = open(tmp + '/.err', errors='replace').read()
    for f in os.listdir(tmp):
        if f.startswith('san.'):
            err += '\n' + open(os.path.join(tmp, f), errors='replace').read()
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(tmp, ignore_errors=True)
    r = dict(job=job, rc=rc, timed_out=timed_out, fails=[], known=[], samples=[], stats={}, distinct={}, done=0, lastcase=-1,
             argv=argv, env={k: env[k] for k in env if k.startswith(('OMPI', 'ASAN', 'TSAN', 'UBSAN', 'LSAN', 'MALLOC', 'HXHIM', 'VF_'))}, wall=time.time() - t0)
    for l in out.splitlines():
        if not l.startswith('@'):
            continue
        try:
            if l.startswith('@CASE '):
                r['lastcase'] = int(l[6:])
            elif l.startswith('@FAIL '):
                r['fails'].append(json.loads(l[6:]))
            elif l.startswith('@KNOWN '):
                r['known'].append(json.loads(l[7:]))
            elif l.startswith('@SAMPLE '):
                r['samples'].append(json.loads(l[8:]))
            elif l.startswith('@STAT '):
                _, k, v = l.split(); r['stats'][k] = r['stats'].get(k, 0) + int(v)
            elif l.startswith('@DISTINCT '):
                t = l.split(); r['distinct'].setdefault(t[1], set()).update(t[2:])
            elif l.startswith('@DONE'):
                r['done'] += 1
        except (ValueError, IndexError):
            pass
    want = np_ or 1
    complete = aborted or (r['done'] >= want and not timed_out)
    san = classify(err, None if complete and rc in (0, None) else (rc if rc is not None else 0), flavour)
    ignore = s.get('ignore_san', ())
    for key, ex in san:
        if any(re.search(i, key) for i in ignore):
            r['stats']['ignored_reports'] = r['stats'].get('ignored_reports', 0) + 1
            continue
        r['fails'].append(dict(case=r['lastcase'], key=key, msg=ex))
    r['hung'] = timed_out
    if not complete and not timed_out and not san and not r['fails']:
        r['fails'].append(dict(case=r['lastcase'], key='crash:ended-early', msg='rc=%s, no clean end after case %d\n%s' % (rc, r['lastcase'], err[-1200:])))
    r['err'] = err
    return r


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[prop]
    specs = P['jobs'](tier)
    if only:
        specs = [s for s in specs if s.get('mode') == only]
    for s in specs:
        s['thorough'] = tier == 'thorough'
    by = {}
    for s in specs:
        by.setdefault(s.get('flavour', 'plain'), set()).add(s['driver'])
    rc, out, _ = B.build({fl: sorted(drv) for fl, drv in by.items()})
    if rc:
        print(out[-6000:])
        print('HARNESS-ERROR: build failed (%s)' % by)
        sys.exit(2)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='hxv-%s-' % prop)
    jobs = []
    for i, s in enumerate(specs):
        n = s['cases']
        par = max(1, min(s.get('par', NCPU), n))
        per = (n + par - 1) // par
        for st in range(0, n, per):
            jobs.append(Job(prop, s, i, st, min(per, n - st), seed))
    # heavy multi-process jobs get the machine's cores as a budget
    sem = threading.Semaphore(NCPU)
    glock = threading.Lock()

    def go(j):
        w = min(NCPU, max(1, j.spec.get('weight', j.spec.get('np', 0) or 1)))
        with glock:
            for _ in range(w):
                sem.acquire()
        try:
            return run_job(j, work)
        finally:
            for _ in range(w):
                sem.release()

    results = []
    STOP['known'] = load_known()
    try:
        with cf.ThreadPoolExecutor(max_workers=len(jobs) or 1) as ex:
            results = list(ex.map(go, jobs))
        # a job that ran out of time is run again alone: only a repeated hang counts
        for i, r in enumerate(results):
            if r['hung'] and not r['fails']:
                if STOP['at'] is not None:
                    break
                r2 = run_job(r['job'], work)
                if r2['hung']:
                    r2['fails'].append(dict(case=r2['lastcase'], key='hang:' + (r['job'].spec.get('mode') or r['job'].spec['driver']),
                                            msg='no end within %ss, twice; last case %d' % (r['job'].spec.get('timeout', 240), r2['lastcase'])))
                    STOP['at'] = time.time()
                results[i] = r2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = load_known()
    viol, kf = {}, {}
    stats, distinct, samples = {}, {}, []
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        samples += r['samples']
        for f in r['fails']:
            key = f['key']
            if (prop, key) in known:
                kf.setdefault(key, f['msg'])
            else:
                viol.setdefault(key, []).append((r, f))
        for k in r['known']:
            if k['fails']:
                if (prop, k['key']) in known:
                    kf.setdefault(k['key'], k['msg'])
                else:
                    viol.setdefault(k['key'], []).append((r, dict(case=r['lastcase'], key=k['key'], msg=k['msg'])))
    # crashes in one known place can hide others: probes run in processes of their own
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    for key, l in sorted(viol.items()):
        r, f = l[0]
        fn = os.path.join(VERIF, 'replay', '%s-%s.sh' % (prop, re.sub(r'[^\w.-]+', '_', key)[:80]))
        with open(fn, 'w') as o:
            o.write('#!/bin/bash\n# property %s, key %s (%d occurrence(s)); seed %d tier %s\n' % (prop, key, len(l), seed, tier))
            for ln in f['msg'].splitlines():
                o.write('# ' + ln + '\n')
            o.write('d=$(mktemp -d); cd "$d"\n')
            o.write('python3 %s/tools/build.py %s %s >/dev/null || exit 2\n' % (VERIF, r['job'].spec.get('flavour', 'plain'), r['job'].spec['driver']))
            o.write('export TMPDIR="$d" ' + ' '.join("%s='%s'" % kv for kv in r['env'].items()) + '\n')
            a = list(r['argv'])
            a[a.index('--dir') + 1] = '"$d"'
            if not r['job'].spec.get('stateful') and f.get('case', -1) >= 0:
                a += ['--only', str(f['case'])]
            o.write(' '.join(a) + '\n')
        os.chmod(fn, 0o755)
        print('  [%s] case %s: %s' % (key, f.get('case'), f['msg'][:900]))
        print('VIOLATION property=%s replay=%s' % (prop, fn))
    for key, msg in sorted(kf.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[(prop, key)]))
    for r in results:
        if os.environ.get('VF_VERBOSE'):
            print('job', r['job'].spec.get('mode'), r['job'].start, 'wall %.1f' % r['wall'], 'rc', r['rc'], 'done', r['done'], r['err'][-300:])
    nt = distinct.pop('nontrivial', set())
    cov = dict(evaluations=stats.pop('evaluations', 0), distinct_nontrivial=len(nt), rule=P['rule'], samples=samples[:6])
    cov['observed'] = stats
    if distinct:
        cov['distinct'] = {k: len(v) for k, v in distinct.items()}
    cov['build_s'] = round(tb, 1)
    cov['processes'] = len(results)
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'exploration'), coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %d violation(s), %d known, %.0fs (build %.0fs)' %
          (prop, tier, cov['evaluations'], cov['distinct_nontrivial'], len(viol), len(kf), ev['wall_s'], tb))
    if not viol and (cov['evaluations'] == 0):
        print('HARNESS-ERROR: nothing was evaluated')
        sys.exit(2)
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
