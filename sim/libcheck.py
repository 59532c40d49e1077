"""Properties C01-C06: the library under the thread, interruption and resource simulator."""
import array, concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile, time
import simbuild
from plan import Plan, minimise

# runs (seeded simulations) and order histories per tier
RUNS = {
    'C01': dict(quick=(80000, 0, 0), thorough=(1200000, 0, 0)),
    'C02': dict(quick=(12000, 608 * 2, 617), thorough=(120000, 608 * 12, 617 * 2)),
    'C03': dict(quick=(120000, 0, 0), thorough=(1200000, 0, 0)),
    'C04': dict(quick=(100000, 608 * 8, 617), thorough=(1500000, 608 * 12, 617 * 3)),
    'C05': dict(quick=(80000, 608, 617), thorough=(800000, 608 * 6, 617 * 2)),
    'C06': dict(quick=(140000, 0, 0), thorough=(1500000, 0, 0)),
    'C13': dict(quick=(60000, 608 * 2, 0), thorough=(600000, 608 * 40, 0)),
    'C14': dict(quick=(60000, 0, 0), thorough=(900000, 0, 0)),
    'C15': dict(quick=(120000, 0, 0), thorough=(1500000, 0, 0)),
}
# executions per function that climb towards comparisons and branches never taken
CLIMBS = dict(quick=100000, thorough=2000000)
RULE = {
    'C01': 'a run is 2-64 caller threads making 1-4 calls each; it is non-trivial when at least one preemption inside a call was decided; distinct by the hash of its whole sequence of (thread, function, preemption point, successor)',
    'C02': 'a run is a history of 1-3000 calls of near-colliding arguments under varying ambient state, or an order history (all 8/16-bit patterns or thousands of structured ones of one function in two orders, stack fillings and ambient states), or a long history (70000 calls of one function, over a million of a family); distinct by seed of its history',
    'C03': 'a run is 1-2 threads whose calls are interrupted by calls, up to six deep, or abandoned, one level or more, at arbitrary steps; distinct by the hash of its sequence of (thread, function, point, kind)',
    'C04': 'a run is 2-4 threads some of which stall for ever inside a call, or one function over all 8/16-bit patterns or thousands of structured ones; distinct by the hash of its sequence of (thread, function, point, kind)',
    'C05': 'a run is a history of calls made with allocations and services refused and/or on a 16 KiB stack, repeated four times, or one function over thousands of arguments or tens of thousands of calls; distinct by seed',
    'C13': 'a run is 1-3 threads calling functions that work on the encoding, or with NaR, under any combination of settings with preemption and nested calls, or one function over all 8/16-bit patterns or thousands of structured ones under the default and two random assignments of settings; distinct by interleaving and seed',
    'C14': 'a run is 1-4 threads whose calls are made before and after static constructors, exit handlers, static destructors and destructors of thread-specific data, and in children forked between or within calls; distinct by the hash of its sequence of (thread, function, point, kind)',
    'C15': 'a run is 2-47 coroutines of one thread making 1-4 calls each, suspended inside calls and resumed in any order or never; distinct by the hash of its sequence of (coroutine, function, point, successor)',
    'C06': 'a run is 1-3 threads calling under varied control settings with preemptions and nested calls; distinct by seed and interleaving',
}
NOTE = {
    'real': ['every source file of the library, compiled from the working tree with scheduling points at each basic block, memory access and external call', 'libm', 'the C library outside the seams', 'real threads with real TLS and errno'],
    'stub': ['choice of the running thread', 'signal delivery (a nested call at the interruption point, with default FP environment)', 'malloc family, mmap, fopen/open when called from the library', 'mutexes, once, spin and rw locks', 'clock, random numbers, environment variables, sleep'],
}


def parse_stats(line):
    return {k: int(v) for k, v in (x.split('=') for x in line.split()[1:])}


def sweep(C, binary, tmp, climbs=None):
    """reach survey: per function, arguments that reach new code or touch writable memory"""
    n = int(subprocess.run([binary, 'napi'], capture_output=True, text=True, check=True).stdout)
    step = max(1, n // 64)
    files = []

    def one(lo):
        f = '%s/sw_%04d' % (tmp, lo)
        r = subprocess.run([binary, 'sweep', str(lo), str(min(n, lo + step)), str(C.SEED), f, str(climbs or CLIMBS['thorough' if C.TIER == 'thorough' else 'quick'])], capture_output=True, text=True)
        if r.returncode:
            raise C.CheckError('sweep failed: ' + r.stdout + r.stderr)
        return f
    with cf.ThreadPoolExecutor(C.NW) as ex:
        files = list(ex.map(one, range(0, n, step)))
    gran = {}
    ncorp = nflag = 0
    sites = execs = 0
    path = tmp + '/corpus'
    with open(path, 'w') as out:
        for f in files:
            for l in open(f, errors='replace'):
                if l.startswith('c '):
                    out.write(l)
                    ncorp += 1
                    nflag += l.startswith('c 1')
                elif l.startswith('s '):
                    sites += int(l.split()[1])
                    execs += int(l.split()[2])
                elif l.startswith('t '):
                    _, fn, off = l.split()
                    gran.setdefault(off, set()).add(fn)
        groups = []
        for off, s in sorted(gran.items(), key=lambda x: int(x[0])):
            if s not in groups and len(groups) < 64:
                groups.append(s)
        for i, s in enumerate(groups):
            for fn in sorted(s):
                out.write('g %d %s\n' % (i, fn))
    return path, n, ncorp, nflag, groups, sites, execs


def execute(binary, text, tmp, tag):
    f = '%s/x_%s.plan' % (tmp, tag)
    open(f, 'w').write(text)
    r = subprocess.run([binary, 'exec', f], capture_output=True, text=True, timeout=300)
    m = re.match(r'RESULT (\S+) (\S+) (\S+) (.*)', r.stdout)
    if not m:
        return None
    return m.groups()


def check(C, prop):
    t0 = time.time()
    binary, dig = simbuild.build('libsim')
    tmp = tempfile.mkdtemp(prefix='libsim-', dir='/tmp')
    try:
        return check1(C, prop, binary, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check1(C, prop, binary, tmp, t0):
    tsw = time.time()
    corpus, napi, ncorp, nflag, groups, sites, execs = sweep(C, binary, tmp)
    tsw = time.time() - tsw
    runs, orders, marathons = RUNS[prop][C.TIER if C.TIER in ('quick', 'thorough') else 'quick']
    if os.environ.get('LIBSIM_RUNS'):
        runs = int(os.environ['LIBSIM_RUNS'])
    # fixed number of slices, so that the runs do not depend on the number of workers
    nsl = 64 if C.TIER != 'thorough' else 256
    cpus = sorted(os.sched_getaffinity(0))
    jobs = [(i, runs * i // nsl, runs * (i + 1) // nsl - runs * i // nsl, orders * i // nsl, orders * (i + 1) // nsl - orders * i // nsl,
             marathons * i // nsl, marathons * (i + 1) // nsl - marathons * i // nsl) for i in range(nsl)]
    import queue
    free = queue.Queue()
    for w in range(C.NW):
        free.put(cpus[w % len(cpus)])
    stop = []

    def one(j):
        i, first, count, of, oc, mf, mc = j
        d = '%s/o%d' % (tmp, i)
        os.makedirs(d)
        if len(stop) >= 3:
            return '', d
        cpu = free.get()
        try:
            r = subprocess.run([binary, 'run', prop, str(C.SEED), str(first), str(count), corpus, d, str(of), str(oc), str(mf), str(mc)],
                               capture_output=True, text=True, env=dict(os.environ, LIBSIM_CPU=str(cpu)))
        finally:
            free.put(cpu)
        if r.returncode:
            raise C.CheckError('simulator failed (%d): %s%s' % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
        if 'VIOL ' in r.stdout:
            stop.append(1)
        return r.stdout, d
    with cf.ThreadPoolExecutor(C.NW) as ex:
        outs = list(ex.map(one, jobs))
    tot, viols, unrep = {}, [], []
    hashes = array.array('Q')
    for o, d in outs:
        for l in o.splitlines():
            if l.startswith('STATS'):
                for k, v in parse_stats(l).items():
                    tot[k] = max(tot.get(k, 0), v) if k in ('maxsteps', 'maxstk', 'maxdepth') else tot.get(k, 0) + v
            elif l.startswith('VIOL '):
                _, kind, path, text = l.split(' ', 3)
                viols.append((kind, path, text))
            elif l.startswith(('UNREPRODUCED', 'NONDET')):
                unrep.append(l)
        for f in glob.glob(d + '/ih_*.bin'):
            a = array.array('Q')
            a.frombytes(open(f, 'rb').read())
            hashes.extend(a)
    distinct = len(set(hashes))
    rd = C.replay_dir(prop)
    found, seen = [], set()
    for kind, path, text in viols:
        if len(found) >= 3:
            break
        sig = (kind, tuple(sorted(set(re.findall(r'takum\w+', text)))))
        if sig in seen:
            continue
        seen.add(sig)
        p = Plan.parse(open(path).read())
        head = [l[2:] for l in open(path).read().splitlines() if l.startswith('# ')]

        def violates(q):
            r = execute(binary, q.text(), tmp, 'min')
            return r is not None and r[0] == 'violated' and r[1] == kind
        if not violates(p):
            unrep.append('recorded plan does not violate again: ' + text)
            continue
        q, used = minimise(p, violates)
        # gate: two fresh processes, the same violation and the same log
        a = execute(binary, q.text(), tmp, 'g1')
        b = execute(binary, q.text(), tmp, 'g2')
        if a is None or b is None or a != b or a[0] != 'violated' or a[1] != kind:
            unrep.append('replay differs: %r %r' % (a, b))
            continue
        out = '%s/%d.plan' % (rd, len(found) + 1)
        open(out, 'w').write(q.text(head[:1] + ['found: ' + text, 'minimised with %d executions: %s: %s' % (used, a[1], a[3]), 'log hash ' + a[2],
                                                 'replay: %s/replay.sh %s' % (C.VERIF, out)]))
        found.append((out, '%s: %s' % (a[1], a[3])))
    wall = time.time() - t0
    nontriv = distinct
    cov = dict(
        evaluations=tot.get('runs', 0) + tot.get('orders', 0) + tot.get('marathons', 0),
        distinct_nontrivial=nontriv,
        rule=RULE[prop],
        samples=[],
        simulated_runs=tot.get('runs', 0), order_histories=tot.get('orders', 0), long_histories=tot.get('marathons', 0),
        calls_in_long_histories=tot.get('mcalls', 0), deepest_nesting=tot.get('maxdepth', 0), max_stack_bytes_of_a_call=tot.get('maxstk', 0),
        runs_per_hour=int((tot.get('runs', 0) + tot.get('orders', 0)) / max(wall, 0.1) * 3600),
        seeds='VERIF_SEED=%d, run seeds derived from it; runs 0..%d' % (C.SEED, runs - 1),
        library_calls=tot.get('calls', 0) + tot.get('ordercalls', 0) + tot.get('mcalls', 0),
        isolated_reference_calls=tot.get('baselines', 0),
        simulated_steps=tot.get('steps', 0), simulated_time='one tick per scheduling point: %d ticks' % tot.get('steps', 0),
        scheduling_points_on_shared_memory=tot.get('shared', 0),
        external_calls=tot.get('ext', 0),
        faults_fired=dict(preemption=tot.get('switch', 0), nested_interruption=tot.get('nest', 0), abandonment=tot.get('cancel', 0),
                          stall_for_ever=tot.get('stall', 0), fork=tot.get('fork', 0), constructors_run=tot.get('ctors', 0), exit_handlers_run=tot.get('exit', 0), static_destructors_run=tot.get('fini', 0), thread_destructors_run=tot.get('tls', 0), next_to_shared_access=tot.get('evshared', 0), allocation_requests_seen=tot.get('allocs', 0),
                          allocation_refused=tot.get('refused', 0), service_refused=tot.get('iorefused', 0),
                          floating_point_traps_taken=tot.get('traps', 0),
                          runs_with_small_stack=tot.get('smallstack', 0), runs_with_refusal_armed=tot.get('allocruns', 0)),
        runs_with_events=tot.get('eventruns', 0),
        max_own_steps_of_a_call=tot.get('maxsteps', 0),
        replayed_for_determinism=tot.get('detchecked', 0), replays_that_differed=tot.get('detbad', 0),
        survey=dict(functions=napi, interesting_arguments=ncorp, touching_writable_memory=nflag, comparisons_watched=sites, calls_that_climbed_towards_them=execs, groups=[sorted(g)[:20] for g in groups], seconds=round(tsw, 1)),
        components=NOTE)
    # samples: a plan of this very run
    r = subprocess.run([binary, 'show', prop, str(C.SEED), '3', corpus], capture_output=True, text=True)
    cov['samples'] = [s.strip().splitlines()[:40] for s in r.stdout.split('----') if s.strip()][:3]
    C.write_evidence(prop, 'exploration', cov,
                     ['sequentially consistent memory (x86 store buffering is not simulated)', 'libm and libc calls are atomic steps',
                      'scheduling points are basic blocks, memory accesses and external calls of the library code'], wall, len(found))
    print('%s: %d runs, %d order histories, %d long ones, %d calls, %d distinct, events %s, %.1f s' % (
        prop, tot.get('runs', 0), tot.get('orders', 0), tot.get('marathons', 0), tot.get('calls', 0) + tot.get('ordercalls', 0) + tot.get('mcalls', 0), distinct,
        {k: tot.get(k, 0) for k in ('switch', 'nest', 'cancel', 'stall', 'refused')}, wall))
    rc = C.report(prop, found)
    if unrep:
        print('\n'.join(unrep[:5]))
        if rc == 0:
            raise C.CheckError('%d executions were not reproducible' % len(unrep))
    return rc
