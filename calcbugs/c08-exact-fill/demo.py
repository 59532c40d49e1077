import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

bad = 0
for n in [8190, 8191, 8192, 10239]:
    bad |= results(run(' ' * (n - 5) + '1 2 +').stdout) != [('a', '3')]
sys.exit(bad)
