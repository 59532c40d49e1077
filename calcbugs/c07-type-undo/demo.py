import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

a = run('5 takum_linear8\n7 3 /\n')
b = run('takum_linear8\n7 3 /\n')
sys.exit(results(a.stdout) != results(b.stdout))
