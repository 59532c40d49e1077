import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

a = run(''.join('%d\n' % (100 + i) for i in range(27)) + '7 8\nb\n')
r = results(a.stdout)
sys.exit(r[-1] != ('b', '101'))
