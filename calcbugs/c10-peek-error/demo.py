import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

# a build of the calculator in which a harness supplies what it needs
import shutil, atexit
t = tempfile.mkdtemp()
atexit.register(shutil.rmtree, t)
def build(harness, flags=()):
    open(t + '/h.c', 'w').write(harness)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=c99', '-D_ISOC99_SOURCE', '-Dmain=calc_main', *flags, '-c', 'example/calculator.c', '-o', t + '/c.o'], check=True)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=c99', '-D_ISOC99_SOURCE', *flags, '-c', 'example/util.c', '-o', t + '/u.o'], check=True)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=gnu99', '-D_GNU_SOURCE', *[f for f in flags if f.startswith('-f')], t + '/h.c', t + '/c.o', t + '/u.o', './libtakum.a', '-lm', '-o', t + '/calc'], check=True)

build(r"""
#include <stdio.h>
#include <errno.h>
#include <string.h>
static const char *s = "1\n2\n";
static ssize_t rd(void *c, char *b, size_t n) { if (*s) { size_t k = strchr(s, '\n') - s + 1; memcpy(b, s, k); s += k; return k; } errno = EIO; return -1; }
int calc_main(void);
int main(void) { cookie_io_functions_t f = { rd, 0, 0, 0 }; stdin = fopencookie(0, "r", f); return calc_main(); }
""")
calc = t + '/calc'
sys.exit(results(run('').stdout) != [('a', '1'), ('b', '2')])
