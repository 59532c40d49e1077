import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

import time
p = subprocess.Popen([calc], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p.stdin.write(b'1 2 '); p.stdin.flush(); time.sleep(1); p.stdin.write(b'+\n'); o, e = p.communicate()
sys.exit(results(o) != [('a', '3')])
