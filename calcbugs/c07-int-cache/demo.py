import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

a = run('takum_linear16\n65536 65536 *\n1 a root\n')
sys.exit(results(a.stdout)[0][1] != '4294967296')
