import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

# a build of the calculator in which a harness supplies what it needs
import shutil, atexit
t = tempfile.mkdtemp()
atexit.register(shutil.rmtree, t)
def build(harness, flags=()):
    open(t + '/h.c', 'w').write(harness)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=c99', '-D_ISOC99_SOURCE', '-Dmain=calc_main', *flags, '-c', 'example/calculator.c', '-o', t + '/c.o'], check=True)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=c99', '-D_ISOC99_SOURCE', *flags, '-c', 'example/util.c', '-o', t + '/u.o'], check=True)
    subprocess.run(['gcc', '-O1', '-g', '-w', '-std=gnu99', '-D_GNU_SOURCE', *[f for f in flags if f.startswith('-f')], t + '/h.c', t + '/c.o', t + '/u.o', './libtakum.a', '-lm', '-o', t + '/calc'], check=True)

build('int calc_main(void); int main(void) { return calc_main(); }', ['-fsanitize=address'])
calc = t + '/calc'
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'

sys.exit(run(' ' * 17000 + '1\n' + ' ' * 9000 + '2\n').returncode != 0)
