import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

import shutil
t = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, t)
open(t + '/s.c', 'w').write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
static int n;
static int refuse(void *ra) {
	Dl_info i;
	const char *e = getenv("FAIL_AT");
	if (!dladdr(ra, &i) || !i.dli_fname || !strstr(i.dli_fname, "calculator")) return 0;
	return ++n == (e ? atoi(e) : 0);
}
void *malloc(size_t s) { static void *(*f)(size_t); if (!f) f = dlsym(RTLD_NEXT, "malloc"); if (refuse(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return f(s); }
void *realloc(void *p, size_t s) { static void *(*f)(void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "realloc"); if (refuse(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return f(p, s); }
""")
subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', t + '/s.so', t + '/s.c', '-ldl'], check=True)
def run_fail(data, k): return run(data, env=dict(os.environ, LD_PRELOAD=t + '/s.so', FAIL_AT=str(k)))

bad = 0
for k in range(0, 7):
    r = results(run_fail('1\n' + ' ' * 8190 + '12345 1 +\n', k).stdout)
    bad |= any(v not in ('1', '12346') for _, v in r)
sys.exit(bad)
