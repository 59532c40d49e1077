import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

t = tempfile.mkdtemp()
import atexit, shutil; atexit.register(shutil.rmtree, t)
def peak(line, n):
    with open(t + '/in', 'w') as f:
        for i in range(n): f.write(line)
    with open(t + '/in') as f:
        p = subprocess.Popen([calc], stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return os.wait4(p.pid, 0)[2].ru_maxrss

small = peak('\x01' * 200 + 'x\n', 1)
big = peak('\x01' * 200 + 'x\n', 400000)
sys.exit(big > small + 8000)
