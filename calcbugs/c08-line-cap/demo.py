import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

sys.exit(results(run(' ' * 262200 + '1 2 +\n9\n').stdout) != [('a', '3'), ('b', '9')] or
         results(run('1' + ' ' * 262200 + '2 +\n9\n').stdout) != [('a', '3'), ('b', '9')])
