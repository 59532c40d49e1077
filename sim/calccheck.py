"""Properties C07-C12: simulated sessions of the example calculator."""
import array, concurrent.futures as cf, copy, glob, os, queue, re, shutil, subprocess, tempfile, time
import libcheck, simbuild
from plan import ddmin

RUNS = {
    'C07': dict(quick=60000, thorough=1200000),
    'C08': dict(quick=50000, thorough=1000000),
    'C09': dict(quick=30000, thorough=600000),
    'C10': dict(quick=90000, thorough=1500000),
    'C11': dict(quick=90000, thorough=1500000),
    'C12': dict(quick=30000, thorough=500000),
}
RULE = {
    'C07': 'a run is one session of 3-400 (repeated: up to 8000) lines delivered line by line; distinct by the hash of everything the session did at the seams',
    'C08': 'a run is one byte sequence under a sampled fragmentation, stream buffers, memory filling and build variant, and once delivered whole; distinct by the hash of everything both sessions did at the seams',
    'C09': 'a run is one session with sampled refused allocations, once without them, and once per affected line with that line blank; distinct by the hash of everything the sessions did at the seams',
    'C10': 'a run is one session with sampled read and/or write faults; distinct by the hash of everything it did at the seams',
    'C11': 'a run is one terminal session typed in sampled pieces; distinct by the hash of everything it did at the seams',
    'C12': 'a run is one session, mostly repeated 16-200 times, some with refused allocations or read faults; distinct by the hash of everything it did at the seams',
}
NOTE = {
    'real': ['example/calculator.c and example/util.c of the working tree, compiled with a step counter', 'the library it is linked with', 'C library: printf, strtok, strtoll, strtold and stdio itself (on cookie streams)'],
    'stub': ['read and write on descriptors 0, 1, 2 and their buffering', 'malloc family (guard pages, quarantine, refusals)', 'isatty, clock, exit'],
}
NT, NO = 8, 128
LEVEL_ASSUME = ['the streams are simulated under glibc stdio; other C libraries are not', 'the model takes numeric results from the library and number syntax from the C library']


class CPlan:
    def __init__(self):
        self.head, self.faults, self.lines = {}, [], []

    @staticmethod
    def parse(text):
        p = CPlan()
        for l in text.split('\n'):
            if l.startswith('#') or not l:
                continue
            k, _, r = l.partition(' ')
            if k == 'fault':
                p.faults.append(r)
            elif k == 'line':
                p.lines.append(r)
            else:
                p.head[k] = r
        return p

    def text(self, comments=()):
        o = ['# ' + c for c in comments] + ['%s %s' % kv for kv in self.head.items()]
        return '\n'.join(o + ['fault ' + f for f in self.faults] + ['line ' + l for l in self.lines]) + '\n'


def minimise(plan, violates, budget=600):
    b = [budget]
    end = time.time() + 50

    def ok(p):
        if time.time() > end:
            b[0] = 0
        if b[0] <= 0:
            return False
        b[0] -= 1
        return violates(p)

    def variant(p, **kw):
        q = copy.deepcopy(p)
        for k, v in kw.items():
            if k in ('faults', 'lines'):
                setattr(q, k, v)
            else:
                q.head[k] = v
        return q
    cur = plan
    for _ in range(4):
        before = cur.text()
        if cur.head.get('repeat', '0') not in ('0', '1'):
            for r in ('0', '16', str(int(cur.head['repeat']) // 2)):
                if int(r) < int(cur.head['repeat']) and ok(variant(cur, repeat=r)):
                    cur = variant(cur, repeat=r)
                    break
        if cur.faults:
            q = variant(cur, faults=[])
            cur = q if ok(q) else variant(cur, faults=ddmin(list(cur.faults), lambda f: ok(variant(cur, faults=f)), b))
        idx = list(range(len(cur.lines)))
        if len(idx) > 1:
            keep = ddmin(idx, lambda k: bool(k) and ok(variant(cur, lines=[cur.lines[i] for i in k])), b)
            cur = variant(cur, lines=[cur.lines[i] for i in keep])
        for k, v in (('variant', '0'), ('poison', '165'), ('chunks', '0'), ('inbuf', 'full 4096'), ('outbuf', 'full 4096'), ('noeol', '0'), ('tty', '0')):
            if cur.head.get(k) != v and ok(variant(cur, **{k: v})):
                cur = variant(cur, **{k: v})
        ch = cur.head.get('chunks', '0').split()
        if len(ch) > 1:
            ch = ddmin(ch, lambda c: bool(c) and ok(variant(cur, chunks=' '.join(c))), b)
            cur = variant(cur, chunks=' '.join(ch))
        # tokens of each line, then long runs
        if len(cur.lines) <= 12:
            for i in range(len(cur.lines)):
                t = cur.lines[i].split(' ')
                if len(t) > 1:
                    def tt(keep):
                        ls = list(cur.lines)
                        ls[i] = ' '.join(keep)
                        return ok(variant(cur, lines=ls))
                    t = ddmin(t, tt, b)
                    ls = list(cur.lines)
                    ls[i] = ' '.join(t)
                    cur = variant(cur, lines=ls)
                m = re.search(r'\\\{(\d+)\*', cur.lines[i])
                while m and int(m.group(1)) > 1:
                    ls = list(cur.lines)
                    ls[i] = ls[i].replace(m.group(0), '\\{%d*' % (int(m.group(1)) * 3 // 4), 1)
                    if not ok(variant(cur, lines=ls)):
                        break
                    cur = variant(cur, lines=ls)
                    m = re.search(r'\\\{(\d+)\*', cur.lines[i])
        # faults: earlier, once
        for i, f in enumerate(cur.faults):
            w = f.split()
            j = {'alloc': (1, 2), 'read': (1, 3), 'write': (2, 5)}[w[0]]
            if w[j[1]] != '1':
                x = list(w)
                x[j[1]] = '1'
                fs = list(cur.faults)
                fs[i] = ' '.join(x)
                if ok(variant(cur, faults=fs)):
                    cur = variant(cur, faults=fs)
                    w = x
            for at in sorted(set([1, 2, 3, int(w[j[0]]) // 2, int(w[j[0]]) - 1])):
                if 0 < at < int(w[j[0]]):
                    x = list(w)
                    x[j[0]] = str(at)
                    fs = list(cur.faults)
                    fs[i] = ' '.join(x)
                    if ok(variant(cur, faults=fs)):
                        cur = variant(cur, faults=fs)
                        break
        if cur.text() == before or b[0] <= 0:
            break
    return cur, budget - b[0]


def execute(binary, text, tmp, tag):
    f = '%s/x_%s.plan' % (tmp, tag)
    open(f, 'w').write(text)
    r = subprocess.run([binary, 'exec', f], capture_output=True, timeout=300)
    m = re.match(r'RESULT (\S+) (\S+) (\S+) (.*)', r.stdout.decode('latin1'))
    return m.groups() if m else None


def literals(C, binary, tmp):
    """arguments the survey of the library found to reach rare code, as lines of sessions"""
    try:
        lib, _ = simbuild.build('libsim')
        corpus, _, _, _, _, sites, execs = libcheck.sweep(C, lib, tmp, 400000 if C.TIER == 'thorough' else 20000)
    except (C.CheckError, subprocess.SubprocessError):
        return 0, 0, 0   # the sessions do without
    out = tmp + '/literals'
    subprocess.run([binary, 'literals', corpus, out], check=True, stdin=subprocess.DEVNULL)
    os.environ['CALCSIM_CORPUS'] = out
    return sum(1 for _ in open(out, errors='replace')), sites, execs


def check(C, prop):
    t0 = time.time()
    binary, _ = simbuild.build('calcsim')
    os.environ['CALCSIM_KNOWN'] = ' '.join(sorted(set(n for n, _ in C.known_findings())))
    tmp = tempfile.mkdtemp(prefix='calcsim-', dir='/tmp')
    try:
        return check1(C, prop, binary, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check1(C, prop, binary, tmp, t0):
    tier = C.TIER if C.TIER in ('quick', 'thorough') else 'quick'
    runs = int(os.environ.get('CALCSIM_RUNS', 0)) or RUNS[prop][tier]
    nlit, sites, execs = literals(C, binary, tmp)
    nsl = 64 if tier == 'quick' else 256
    stop = []

    def one(i):
        d = '%s/o%d' % (tmp, i)
        os.makedirs(d)
        if len(stop) >= 3:
            return '', d
        a, z = runs * i // nsl, runs * (i + 1) // nsl
        r = subprocess.run([binary, 'run', prop, str(C.SEED), str(a), str(z - a), d], capture_output=True)
        if r.returncode:
            raise C.CheckError('simulator failed (%d): %s %s' % (r.returncode, r.stdout[-1000:], r.stderr[-1000:]))
        o = r.stdout.decode('latin1')
        if 'VIOL ' in o:
            stop.append(1)
        return o, d
    with cf.ThreadPoolExecutor(C.NW) as ex:
        outs = list(ex.map(one, range(nsl)))
    tot, viols, unrep = {}, [], []
    shown = subprocess.run([binary, 'quirks'], capture_output=True, text=True, check=True).stdout.split()
    hashes = array.array('Q')
    cov = bytearray(NT * NO * 8)
    for o, d in outs:
        for l in o.splitlines():
            if l.startswith('STATS'):
                for k, v in (x.split('=') for x in l.split()[1:]):
                    tot[k] = max(tot.get(k, 0), int(v)) if k == 'longest' else tot.get(k, 0) + int(v)
            elif l.startswith('VIOL '):
                viols.append(l.split(' ', 3)[1:])
            elif l.startswith(('UNREPRODUCED', 'NONDET')):
                unrep.append(l)
        for f in glob.glob(d + '/ih_*.bin'):
            hashes.frombytes(open(f, 'rb').read())
        for f in glob.glob(d + '/cov.bin'):
            x = open(f, 'rb').read()
            for i, v in enumerate(x):
                if v:
                    cov[i] = 1
    distinct = len(set(hashes))
    rd = C.replay_dir(prop)
    found, seen = [], set()
    for kind, path, text in viols:
        if len(found) >= 3:
            break
        raw = open(path, encoding='latin1').read()
        p = CPlan.parse(raw)
        head = [l[2:] for l in raw.split('\n') if l.startswith('# ')]

        def violates(q):
            r = execute(binary, q.text(), tmp, 'min')
            return r is not None and r[0] == 'violated' and r[1] == kind
        if not violates(p):
            unrep.append('recorded plan does not violate again: ' + text)
            continue
        q, used = minimise(p, violates)
        sig = (kind, q.text())
        if sig in seen:
            continue
        seen.add(sig)
        a = execute(binary, q.text(), tmp, 'g1')
        b = execute(binary, q.text(), tmp, 'g2')
        if a is None or a != b or a[0] != 'violated' or a[1] != kind:
            unrep.append('replay differs: %r %r' % (a, b))
            continue
        out = '%s/%d.plan' % (rd, len(found) + 1)
        open(out, 'w').write(q.text(head[:1] + ['found: ' + text, 'minimised with %d executions: %s: %s' % (used, a[1], a[3]), 'log hash ' + a[2],
                                                'replay: %s/replay.sh %s' % (C.VERIF, out)]))
        found.append((out, '%s: %s' % (a[1], a[3])))
    wall = time.time() - t0
    pairs = sum(1 for t in range(NT) for o in range(NO) if any(cov[(t * NO + o) * 8:(t * NO + o) * 8 + 8]))
    ends = {'returned': 'end1', 'exited': 'end2', 'crashed': 'end3', 'stuck': 'end4', 'aborted': 'end5', 'memory_error': 'end6', 'killed_by_closed_pipe': 'end7', 'record_full': 'end8'}
    c = dict(
        evaluations=tot.get('runs', 0), distinct_nontrivial=distinct, rule=RULE[prop], samples=[],
        simulated_sessions=tot.get('sessions', 0), sessions_per_hour=int(tot.get('sessions', 0) / max(wall, .1) * 3600),
        runs_per_hour=int(tot.get('runs', 0) / max(wall, .1) * 3600),
        seeds='VERIF_SEED=%d, run seeds derived from it; runs 0..%d' % (C.SEED, runs - 1),
        judged=tot.get('judged', 0), not_judged=tot.get('unjudged', 0),
        input_lines=tot.get('lines', 0), input_bytes=tot.get('bytes', 0), longest_session_bytes=tot.get('longest', 0),
        simulated_steps=tot.get('steps', 0), simulated_time='one tick per basic block of the calculator: %d ticks' % tot.get('steps', 0),
        reads=tot.get('reads', 0), writes=tot.get('writes', 0), allocations=tot.get('allocs', 0),
        faults_fired=dict(allocation_refused=tot.get('refused', 0), **{k[2:]: v for k, v in tot.items() if k.startswith('f_')}),
        session_ends={k: tot.get(v, 0) for k, v in ends.items()},
        survey=dict(lines_with_rare_arguments=nlit, comparisons_watched=sites, calls_that_climbed_towards_them=execs),
        listed_defects_shown_by_the_code=shown, operator_type_pairs_evaluated=pairs, model_cells_reached=sum(cov),
        replayed_for_determinism=tot.get('detchecked', 0), replays_that_differed=tot.get('detbad', 0),
        components=NOTE)
    r = subprocess.run([binary, 'show', prop, str(C.SEED), '3'], capture_output=True)
    c['samples'] = [[l[:200] for l in s.strip().splitlines()[:40]] for s in r.stdout.decode('latin1').split('----\n') if s.strip()][:3]
    C.write_evidence(prop, 'exploration', c, LEVEL_ASSUME, wall, len(found))
    print('%s: %d runs, %d sessions, %d lines, %d distinct, not judged %d, faults %s, %.1f s' % (
        prop, tot.get('runs', 0), tot.get('sessions', 0), tot.get('lines', 0), distinct, tot.get('unjudged', 0), {k: v for k, v in c['faults_fired'].items() if v}, wall))
    rc = C.report(prop, found, shown)
    if unrep:
        print('\n'.join(unrep[:5]))
        if rc == 0:
            raise C.CheckError('%d executions were not reproducible' % len(unrep))
    return rc
