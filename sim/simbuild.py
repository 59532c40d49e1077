"""Build the simulators from the current working tree of /repo (content-addressed cache)."""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TAKUM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
VARIANTS = [('', []), ('vz_', ['-ftrivial-auto-var-init=zero']), ('vp_', ['-ftrivial-auto-var-init=pattern'])]
INSTR = ['-g1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc,trace-cmp']
DATASYMS = {'stdin', 'stdout', 'stderr', 'environ', '__environ', 'signgam', 'timezone', 'daylight', 'tzname', 'optarg'}
SIMULATED = '''malloc calloc realloc free aligned_alloc posix_memalign strdup mmap munmap fopen open
time clock clock_gettime timespec_get gettimeofday rand random rand_r drand48 srand srandom getpid getenv
usleep sleep nanosleep sched_yield
reallocarray memalign valloc strndup asprintf vasprintf creat openat pipe pipe2 dup socket memfd_create eventfd
fdopen tmpfile open_memstream fmemopen popen opendir newlocale duplocale pthread_key_create pthread_key_delete
pthread_create pthread_join thrd_create thrd_join
sem_wait sem_trywait sem_post
atexit __cxa_atexit on_exit getppid gettid tss_create tss_delete
pthread_mutex_timedlock mtx_timedlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock
pthread_spin_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
mtx_lock mtx_trylock mtx_unlock pthread_once call_once exit abort'''.split()
ALIAS = {'secure_getenv': 'sim_getenv', '__secure_getenv': 'sim_getenv', '_exit': 'sim_exit', '_Exit': 'sim_exit',
         'thrd_yield': 'sim_sched_yield', 'pthread_yield': 'sim_sched_yield', '__strdup': 'sim_strdup', 'open64': 'sim_open',
         'fopen64': 'sim_fopen', 'mmap64': 'sim_mmap', 'openat64': 'sim_openat', 'creat64': 'sim_creat', '__strndup': 'sim_strndup', 'tmpfile64': 'sim_tmpfile'}


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write('$ ' + ' '.join(cmd) + '\n' + r.stdout + r.stderr)
        raise SystemExit(2)
    return r.stdout


def config():
    """compiler flags and source list of the real build"""
    out = subprocess.run(['make', '-pnq', 'CC=gcc'], cwd=REPO, capture_output=True, text=True).stdout

    def var(n, d):
        m = re.search(r'^%s = (.*)$' % n, out, re.M)
        return m.group(1).split() if m else d
    src = var('SRC', [])
    src = [s + '.c' for s in src if os.path.exists(os.path.join(REPO, s + '.c'))]
    if not src:
        src = sorted('src/' + f for f in os.listdir(REPO + '/src') if f.endswith('.c'))
    return dict(src=src, cppflags=var('CPPFLAGS', ['-D_ISOC99_SOURCE']), cflags=var('CFLAGS', ['-std=c99', '-Os']))


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def tree_files():
    fs = [REPO + '/takum.h', REPO + '/Makefile', REPO + '/config.mk']
    for d in ('src', 'example'):
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith(('.c', '.h')):
                fs.append(os.path.join(REPO, d, f))
    for f in os.listdir(HERE):
        if f.endswith(('.c', '.h', '.py')):
            fs.append(os.path.join(HERE, f))
    return fs


def trampolines(names, path):
    o = ['#include "libsim.h"', 'const char *const extname[] = { %s };' % ', '.join(['"%s"' % n for n in names] + ['0']),
         'const int nextname = %d;' % len(names)]
    o.append('#define TR(nm, id) __asm__(".text\\n.globl sim_ext_" nm "\\n.type sim_ext_" nm ",@function\\nsim_ext_" nm ":\\n" \\')
    body = ['push %rbp', 'mov %rsp,%rbp', 'and $-16,%rsp', 'sub $208,%rsp']
    regs = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9', 'rax', 'r10']
    for i, r in enumerate(regs):
        body.append('mov %%%s,%d(%%rsp)' % (r, 8 * i))
    for i in range(8):
        body.append('movups %%xmm%d,%d(%%rsp)' % (i, 64 + 16 * i))
    body += ['mov %rdx,%rcx', 'mov %rsi,%rdx', 'mov %rdi,%rsi']
    tail = []
    for i, r in enumerate(regs):
        tail.append('mov %d(%%rsp),%%%s' % (8 * i, r))
    for i in range(8):
        tail.append('movups %d(%%rsp),%%xmm%d' % (64 + 16 * i, i))
    tail += ['leave']
    for b in body:
        o.append('"\\t%s\\n" \\' % b)
    o.append('"\\tmov $" #id ",%edi\\n\\tcall sim_ext\\n" \\')
    for b in tail:
        o.append('"\\t%s\\n" \\' % b)
    o.append('"\\tjmp " nm "\\n.size sim_ext_" nm ",.-sim_ext_" nm "\\n");')
    for i, n in enumerate(names):
        o.append('TR("%s", %d)' % (n, i))
    open(path, 'w').write('\n'.join(o) + '\n')


def pool():
    return cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)


def build_libsim(cfg, out):
    import genapi
    b = out + '.d'
    os.makedirs(b, exist_ok=True)
    jobs = []
    with pool() as ex:
        for vi, (px, fl) in enumerate(VARIANTS):
            for s in cfg['src']:
                o = '%s/%s%s.o' % (b, px or 'vn_', os.path.basename(s)[:-2])
                jobs.append(ex.submit(run, ['gcc'] + cfg['cflags'] + ['-w'] + cfg['cppflags'] + INSTR + fl + ['-I' + REPO, '-c', s, '-o', o], cwd=REPO))
        gen, protos = genapi.generate(REPO, cfg['cppflags'], [p for p, _ in VARIANTS])
        open(b + '/api.c', 'w').write(gen)
        jobs.append(ex.submit(run, ['gcc', '-O1', '-w', '-I' + HERE, '-I' + REPO] + cfg['cppflags'] + ['-c', b + '/api.c', '-o', b + '/api.o']))
        for f in ('libsim', 'rt'):
            jobs.append(ex.submit(run, ['gcc', '-O2', '-g1', '-w', '-std=gnu11', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-I' + HERE, '-c', '%s/%s.c' % (HERE, f), '-o', '%s/%s.o' % (b, f)]))
        for j in jobs:
            j.result()
    ext = set()
    parts = []
    inits, finis = set(), set()
    for px, _ in VARIANTS:
        lo = '%s/lib_%s.o' % (b, px or 'vn_')
        run(['ld', '-r', '-o', lo] + ['%s/%s%s.o' % (b, px or 'vn_', os.path.basename(s)[:-2]) for s in cfg['src']])
        und, dfn = set(), set()
        for l in run(['nm', lo]).splitlines():
            f = l.split()
            if len(f) == 2 and f[0] in 'Uw':
                und.add(f[1])
            elif len(f) == 3 and f[1].isupper():
                dfn.add(f[2])
        red = []
        for u in sorted(und):
            if u.startswith(('__tsan', '__sanitizer', '_GLOBAL_OFFSET', '__stack_chk_fail', '__tls_get_addr')) or u in DATASYMS:
                continue
            if u in SIMULATED:
                red.append('%s sim_%s' % (u, u))
            elif u in ALIAS:
                red.append('%s %s' % (u, ALIAS[u]))
            else:
                ext.add(u)
                red.append('%s sim_ext_%s' % (u, u))
        if px:
            red += ['%s %s%s' % (d, px, d) for d in sorted(dfn) if not d.startswith(('__tsan', '__sanitizer', 'DW.ref'))]
        open(lo + '.syms', 'w').write('\n'.join(red) + '\n')
        # constructors and destructors run when the simulator says so
        ren = []
        for l in run(['objdump', '-h', lo]).splitlines():
            m = re.match(r'\s*\d+ (\.(init_array|ctors|fini_array|dtors)(?:\.(\d+))?) ', l)
            if m:
                init = m.group(2) in ('init_array', 'ctors')
                pr = int(m.group(3) or 65535)
                if m.group(3) and m.group(2) in ('ctors', 'dtors'):
                    pr = 65535 - pr
                n = 'sim_%s_%05d' % ('init' if init else 'fini', pr)
                (inits if init else finis).add(n)
                ren += ['--rename-section', '%s=%s' % (m.group(1), n)]
        run(['objcopy', '--redefine-syms=' + lo + '.syms'] + ren + [lo])
        parts.append(lo)
    trampolines(sorted(ext), b + '/tramp.c')
    with open(b + '/tramp.c', 'a') as f:
        for nm, ss, ty in (('inits', inits, 'typedef void (*initfn)(int, char **, char **);'), ('finis', finis, 'typedef void (*finifn)(void);')):
            t = ty.split('(*')[1].split(')')[0]
            f.write(ty + '\n')
            for n in sorted(ss):
                f.write('extern %s __start_%s[], __stop_%s[];\n' % (t, n, n))
            f.write('%s *const sim_%s[][2] = { %s { 0, 0 } };\nconst int nsim_%s = %d;\n' % (
                t, nm, ''.join('{ __start_%s, __stop_%s }, ' % (n, n) for n in sorted(ss)), nm, len(ss)))
    run(['gcc', '-O1', '-w', '-I' + HERE, '-c', b + '/tramp.c', '-o', b + '/tramp.o'])
    run(['gcc', '-no-pie', '-o', out + '.tmp', b + '/libsim.o', b + '/rt.o', b + '/api.o', b + '/tramp.o'] + parts + ['-lm', '-lpthread', '-Wl,-z,now', '-Wl,-z,noexecstack'])
    os.rename(out + '.tmp', out)
    shutil.rmtree(b)


def build(which):
    """which: 'libsim' or 'calcsim'; returns the path of the binary"""
    sys.path.insert(0, HERE)
    os.makedirs(BUILD, exist_ok=True)
    cfg = config()
    d = digest(tree_files(), (cfg, which))
    out = '%s/%s-%s' % (BUILD, which, d)
    with open(BUILD + '/lock-' + which, 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                # older builds of the same simulator are of no further use
                if f.startswith(which + '-'):
                    p = os.path.join(BUILD, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            if which == 'libsim':
                build_libsim(cfg, out)
            else:
                import calcbuild
                calcbuild.build_calcsim(cfg, out)
    return out, d


if __name__ == '__main__':
    for w in sys.argv[1:]:
        print(build(w)[0])
