import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

try:
    d = os.open('/', os.O_RDONLY)
    r = subprocess.run([calc], stdin=d, capture_output=True, timeout=10)
except subprocess.TimeoutExpired:
    sys.exit(1)
sys.exit(r.returncode < 0)
