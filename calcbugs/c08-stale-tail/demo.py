import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

sys.exit(results(run('1000 1001 +\n2 ').stdout) != [('a', '2001'), ('b', '2')] or results(run('1 2 + 7 8 + *\n12').stdout) != [('a', '45'), ('b', '12')])
